/*
 * Monitor of the first Latches of a process, in a program that has nothing else of the library: they may be made by
 * several threads at once. Each case is a new process, because it happens only once in each.
 */
#include "vh.h"
#include <lockfree.h>
#include <thread>
#include <atomic>
#include <memory>
using namespace vh;

static void first_latches(uint64_t seed, int T)
{
	std::atomic<int> ready{0}; std::vector<std::thread> t; std::atomic<Latch*> shared{0};
	alarm(60);
	for (int i = 0; i < T; i++) t.emplace_back([&,i]{
		Rng r(seed+i); ready++; while (ready < T) ;
		for (int k = r.below(200); k > 0; k--) { volatile int x = k; (void)x; }
		std::unique_ptr<Latch> l(new Latch);
		if (l->holding()) fail("holding() of a new latch");
		if (!l->probe()) fail("probe() of a new latch failed");
		if (!l->holding()) fail("holding() by the holder");
		if (l->probe()) fail("probe() gained a latch already held");
		l->leave();
		l->enter(); if (!l->holding()) fail("holding() after enter()"); l->leave();
	});
	for (auto& x : t) x.join();
}
CHECK(T01_first)
{
	while (next_case(VH_N(1200), 12000)) {
		int T = rng().range(2,5); uint64_t seed = rng().next(); note(fmt("%d threads each make the first Latch they use", T));
		int s = in_child([&]{ first_latches(seed, T); }, false);
		if (!WIFEXITED(s) || WEXITSTATUS(s)) fail(WIFSIGNALED(s) && WTERMSIG(s) == SIGALRM ? "a thread is stuck in its first latch" : fmt("the process with the first latches ended with status %x", s));
		cover("first_latches", T); seen(mix(seed)); sample(st().casetext);
	}
}
