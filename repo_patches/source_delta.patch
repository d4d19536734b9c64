From 67306f3b1e2c44c1f11123e03fc72d82dde8d624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 01/87] fix: Array::compare() must order a longer array after
 its own prefix

---
 include/array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/array.h b/include/array.h
index f7ea4a9..78632b9 100644
--- a/include/array.h
+++ b/include/array.h
@@ -99,6 +99,8 @@ public:
 				}
 				if (i < comparand.length())
 					return -1;
+				if (i < num_elements)
+					return 1;
 				return 0;
 			}
 	inline bool	operator==(const ArrayR& comparand) const {
-- 
2.43.0


From f1fa2dc93e83810437f0622e14a4cfa41d11b86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 02/87] fix: Array slices may extend to the end of the array
 they're taken from

---
 include/array.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/array.h b/include/array.h
index 78632b9..8218626 100644
--- a/include/array.h
+++ b/include/array.h
@@ -161,7 +161,8 @@ public:
 	Self		operator+(const ArrayR& addend) const		// Add, producing a Slice on a new Self
 			{
 				// Handle the rare but important case of extending a slice with a contiguous slice of the same body
-				if ((Body*)body == (Body*)addend.body	// From the same body
+				if (body
+				 && (Body*)body == (Body*)addend.body	// From the same body
 				 && offset+num_elements == addend.offset)	// And this ends where the addend starts
 					return Self(body, offset, num_elements+addend.num_elements);
 
@@ -446,8 +447,8 @@ public:
 	ArrayR(Body* body, Index offs, Index len)
 			: body(body), offset(offs), num_elements(len)
 			{
-				assert(offs < body->length());
-				assert(offs+len < body->length());
+				assert(offs <= body->length());
+				assert(offs+len <= body->length());
 			}
 protected:
 	bool		isStatic() const;
-- 
2.43.0


From 653265cd8c67ef529dea8f3fc61af3ef19bf96e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 03/87] fix: Array mutation through an unshared slice must
 respect the slice's offset

---
 include/array.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/array.h b/include/array.h
index 8218626..31db0ec 100644
--- a/include/array.h
+++ b/include/array.h
@@ -213,7 +213,7 @@ public:
 				}
 
 				Unshare();
-				body->remove(at, len);
+				body->remove(offset+at, len);
 				num_elements -= len;
 				return *this;
 			}
@@ -233,8 +233,9 @@ public:
 			}
 	ArrayR&		operator+=(const Element& addend)
 			{
+				Element		e(addend);	// The addend might be in the body we're about to replace
 				Unshare(1);
-				body->insert(num_elements, &addend, 1);
+				body->insert(offset+num_elements, &e, 1);
 				num_elements++;
 				return *this;
 			}
@@ -271,9 +272,10 @@ public:
 					}
 				}
 
-				Unshare(addend.length());
-				body->insert(pos, addend.asElements(), addend.length());
-				num_elements += addend.length();
+				const ArrayR	source(addend);	// If addend has the same body, this makes sure we copy it
+				Unshare(source.length());
+				body->insert(offset+pos, source.asElements(), source.length());
+				num_elements += source.length();
 				return *this;
 			}
 	ArrayR&		append(const ArrayR& addend)	// Append an ArrayR to the end
-- 
2.43.0


From df53f28095666efc4c92246c6af908d6474e7e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 04/87] fix: Array append of another Array used a non-existent
 insert() and isStatic()

---
 include/array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index 31db0ec..7c79024 100644
--- a/include/array.h
+++ b/include/array.h
@@ -279,7 +279,7 @@ public:
 				return *this;
 			}
 	ArrayR&		append(const ArrayR& addend)	// Append an ArrayR to the end
-			{ return insert(num_elements, addend.asElements(), addend.length()); }
+			{ return insert(num_elements, addend); }
 	ArrayR&		append(const Element& addend)	// Append an element to the end
 			{ return push(addend); }
 	ArrayR&		reverse()
@@ -453,7 +453,8 @@ public:
 				assert(offs+len <= body->length());
 			}
 protected:
-	bool		isStatic() const;
+	bool		isStatic() const
+			{ return body && body->isStatic(); }
 
 private:
 	Ref<Body>	body;		// The storage structure for the elements
-- 
2.43.0


From c1b4f1b435a6142333bee1c7cb6dade00f4015c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 05/87] fix: Array const element references must not require a
 mutable Array

---
 include/array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index 7c79024..70c1412 100644
--- a/include/array.h
+++ b/include/array.h
@@ -68,7 +68,7 @@ public:
 	Element		last()
 			{ assert(num_elements > 0); return this->operator[](num_elements-1); }
 	const Element&	last_ref() const
-			{ assert(num_elements > 0); return elem_ref(num_elements-1); }
+			{ return elem_ref((int)num_elements-1); }
 	Element		pull()
 			{ assert(num_elements > 0); Element e = last(); num_elements--; return e; }
 	// Unsafe accessors. These reference must not be live past sharing that could cause mutation
@@ -77,7 +77,8 @@ public:
 			  Unshare();
 			  return body->data()[offset+elem_num]; }
 	const Element&	elem_ref(int elem_num) const
-			{ return elem_mut(elem_num); }
+			{ assert(elem_num >= 0 && elem_num < num_elements && body);
+			  return body->data()[offset+elem_num]; }
 	const Element*	asElements() const
 			{ return body ? body->data()+offset : 0; }
 
-- 
2.43.0


From db778e3025c1fa8dbabfea5434ee2cf81c03a333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 06/87] fix: Array::unshift() and reverse() did not compile

---
 include/array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/array.h b/include/array.h
index 70c1412..ded4415 100644
--- a/include/array.h
+++ b/include/array.h
@@ -249,7 +249,7 @@ public:
 	Element		shift()				// remove an element from the start
 			{ assert(num_elements > 0); return delete_at(0); }
 	ArrayR&		unshift(const Element& e)	// Insert an element at the start
-			{ Unshare(); body->insert(0, e); num_elements++; return *this; }
+			{ Element a(e); Unshare(1); body->insert(offset, &a, 1); num_elements++; return *this; }
 	ArrayR&		insert(Index pos, const ArrayR& addend)
 			{
 				if ((Body*)body == (Body*)addend.body)	// From the same body
@@ -288,8 +288,8 @@ public:
 				if (num_elements == 0)
 					return *this;				// body may be null
 				Unshare();
-				const Element*	dp = body->data()+offset;	// Start of our slice
-				const Element*	ep = dp+num_elements;		// End of our slice
+				Element*	dp = body->data()+offset;	// Start of our slice
+				Element*	ep = dp+num_elements;		// End of our slice
 				while (ep-dp > 1)				// We haven't reached the middle yet
 				{
 					Element	e = *--ep;
-- 
2.43.0


From 8968a2b3676ced4a12a7f39d65c6b2333ffc7d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 07/87] fix: Array::delete_if() must delete the elements that
 satisfy the condition

---
 include/array.h | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/include/array.h b/include/array.h
index ded4415..89fe7f4 100644
--- a/include/array.h
+++ b/include/array.h
@@ -300,26 +300,19 @@ public:
 			}
 	ArrayR&		delete_if(std::function<bool(const Element& e)> condition)
 			{
-				if (num_elements == 0)
-					return *this;				// body may be null
-				const Element*	dp = body->data()+offset;	// Start of our slice
-				const Element*	bp = dp;			// Output pointer
-				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* sp = dp; sp < ep; sp++, bp++)
-					if (condition(*sp))
+				Index		kept = 0;			// Number of elements retained so far
+				for (Index i = 0; i < num_elements; i++)
+				{
+					if (condition(body->data()[offset+i]))
+						continue;			// Skip this element in the output
+					if (kept != i)
 					{
-						if (isShared())
-						{
-							Unshare();	// This invalidates the pointers; reset them
-							dp = body->data() + (dp-sp);
-							bp = body->data() + (bp-sp);
-							ep = body->data() + (ep-sp);
-							// sp = body->data();	// Unnecessary, we won't Unshare twice
-						}
-						bp--;	// Skip this element in the output
+						Unshare();			// This may replace body and offset
+						body->data()[offset+kept] = body->data()[offset+i];
 					}
-				if (bp < dp)
-					num_elements -= (dp-bp);
+					kept++;
+				}
+				num_elements = kept;
 				return *this;
 			}
 
-- 
2.43.0


From 4c2efbbbff00f0b912f9acee5554cf0a18e6a676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 08/87] fix: Array::rfind() never examined the first element

---
 include/array.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/array.h b/include/array.h
index 89fe7f4..9a7255f 100644
--- a/include/array.h
+++ b/include/array.h
@@ -153,8 +153,8 @@ public:
 			{
 				const Element*	dp = body->data()+offset;	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* bp = dp + (before < 0 ? num_elements : before)-1; bp > dp; bp--)
-					if (*bp == e)
+				for (const Element* bp = dp + (before < 0 ? num_elements : before); bp > dp; )
+					if (*--bp == e)
 						return bp-dp;
 				return -1;				// Not found
 			}
@@ -373,8 +373,8 @@ public:
 			{
 				const Element*	dp = body->data()+offset;	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* bp = dp + (before < 0 ? num_elements : before)-1; bp > dp; bp--)
-					if (match(*bp))
+				for (const Element* bp = dp + (before < 0 ? num_elements : before); bp > dp; )
+					if (match(*--bp))
 						return bp-dp;
 				return -1;				// Not found
 			}
-- 
2.43.0


From 67d5227868591c85f9d2ebe167391f334f2df9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 09/87] fix: Array::bsearch() skipped elements and could
 examine one past the end

---
 include/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index 9a7255f..be54cfe 100644
--- a/include/array.h
+++ b/include/array.h
@@ -416,12 +416,12 @@ public:
 				Index		r = num_elements;
 				while (r > l)
 				{
-					Index	m = l+(r-l+1)/2;	// Care with unsigned overflow
+					Index	m = l+(r-l)/2;		// Care with unsigned overflow
 					int	c = comparator(dp[m]);
 					if (c == 0)
 						return m;
 					if (c > 0)
-						r = m-1;		// The middle element was too great
+						r = m;			// The middle element was too great
 					else
 						l = m+1;		// The middle element was too small
 				}
-- 
2.43.0


From a202e66f267c97d7b387c31e2263f464d80a9160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 10/87] fix: Array searches and functional methods must accept
 an empty Array

---
 include/array.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/array.h b/include/array.h
index be54cfe..603cf89 100644
--- a/include/array.h
+++ b/include/array.h
@@ -142,7 +142,7 @@ public:
 	// Linear search for an element
 	int		find(const Element& e, int after = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (after < 0 ? 0 : after+1); bp < ep; bp++)
 					if (*bp == e)
@@ -151,7 +151,7 @@ public:
 			}
 	int		rfind(const Element& e, int before = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (before < 0 ? num_elements : before); bp > dp; )
 					if (*--bp == e)
@@ -319,7 +319,7 @@ public:
 	// Functional methods (these don't mutate or Unshare the subject):
 	const Self&	each(std::function<void(const Element& e)> operation) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					operation(*bp);
@@ -328,7 +328,7 @@ public:
 			}
 	bool		all(std::function<bool(const Element& e)> condition) const	// Do all elements satisfy the condition?
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (!condition(*bp))
@@ -337,7 +337,7 @@ public:
 			}
 	bool		any(std::function<bool(const Element& e)> condition) const	// Does any element satisfy the condition?
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (condition(*bp))
@@ -346,7 +346,7 @@ public:
 			}
 	bool		one(std::function<bool(const Element& e)> condition) const	// Exactly one element satisfies the condition
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				bool		found = false;
 				for (const Element* bp = dp; bp < ep; bp++)
@@ -362,7 +362,7 @@ public:
 	// Linear search for an element using a match function
 	int		find(std::function<bool(const Element& e)> match, int after = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (after < 0 ? 0 : after+1); bp < ep; bp++)
 					if (match(*bp))
@@ -371,7 +371,7 @@ public:
 			}
 	int		rfind(std::function<bool(const Element& e)> match, int before = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (before < 0 ? num_elements : before); bp > dp; )
 					if (match(*--bp))
@@ -383,7 +383,7 @@ public:
 	Self		select(std::function<bool(const Element& e)> condition) const
 			{
 				Self	selected;
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (condition(*bp))
@@ -394,7 +394,7 @@ public:
 			{
 				Result		output((E2*)0, 0, num_elements);// Preallocate correct size
 
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					output.append(map1(*bp));
@@ -403,7 +403,7 @@ public:
 	template<typename J> J	inject(const J& start, std::function<J(J&, const Element& e)> injection) const
 			{
 				J	accumulator = start;
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					accumulator = injection(accumulator, *bp);
@@ -411,7 +411,7 @@ public:
 			}
 	int		bsearch(std::function<int(const Element& e)> comparator) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				Index		l = 0;
 				Index		r = num_elements;
 				while (r > l)
-- 
2.43.0


From f40df815d1a5beb7bbe252a972c557a4a7ff73bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 11/87] fix: constructing a StrVal from data and length must
 not read past the given data

---
 include/strval.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index fadc15e..e65439c 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -78,13 +78,17 @@ public:
 	~StrBodyI()	{}
 	StrBodyI()	: num_chars(0) {}
 	StrBodyI(const char* data, StrDataType dt, Index length = 0, Index allocate = 0)
-			: Body(data, dt != StrStatic, (length == 0 ? strlen(data) : length)+1, allocate)
+			: Body(
+				data, dt != StrStatic,
+				length == 0 ? strlen(data)+1 : (dt == StrStatic ? length+1 : length), // Copy no more than we were given
+				allocate <= length && length != 0 ? length+1 : allocate
+			)
 			, num_chars(0)
 			{
 				// REVISIT: Need a Panic() function when a string passes the allowed maximum size
 				// assert(num_elements < StrValIndexRawBinaryMarker);
 				if (dt != StrStatic && length != 0)
-					start[num_elements-1] = '\0';	// Perhaps we didn't copy a NUL, so add one
+					Body::insert(length, "", 1);	// We didn't copy a NUL, so add one
 				if (dt == StrRawBinary)
 					num_chars = StrValIndexRawBinaryMarker;	// one byte = one char, don't count them
 			}
-- 
2.43.0


From e5c88b355b825b4411f7800118a94d8863be0af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 12/87] fix: StrVal::compare() must not compare bytes beyond
 the shorter string

---
 include/strval.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index e65439c..e7e20d5 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -865,10 +865,14 @@ int StrValI<Index>::compare(const StrValI& comparand, CompareStyle style) const
 	switch (style)
 	{
 	case CompareRaw:
-		cmp = memcmp(nthChar(0), comparand.nthChar(0), numBytes());
+	{
+		Index	bytes = numBytes();
+		Index	comparand_bytes = comparand.numBytes();
+		cmp = memcmp(nthChar(0), comparand.nthChar(0), bytes < comparand_bytes ? bytes : comparand_bytes);
 		if (cmp == 0)
-			cmp = numBytes() - comparand.numBytes();
+			cmp = bytes - comparand_bytes;
 		return cmp;
+	}
 
 	case CompareCI:
 		assert(!"REVISIT: Case-independent comparison is not implemented");
-- 
2.43.0


From 427b10f94291aafcf45342d7380c9499fb5de197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 13/87] fix: StrVal substring search must not look outside the
 string

---
 include/strval.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index e7e20d5..4d845ce 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -526,14 +526,19 @@ public:
 	// Search for substrings:
 	int		find(const StrValI& s1, int after = -1) const
 			{
+				if (s1.length() > length())
+					return -1;			// Too long to occur here
+
 				Index		n = after+1;		// First Index we'll look at
 				Index		last_start = length()-s1.length();	// Last possible start position
 				const char*	s1start = s1.nthChar(0);
+				Index		s1bytes = s1.numBytes();
+				const char*	ep = nthChar(length());	// Don't look past our end
 				const char*	up;
 				while (n <= last_start && (up = nthChar(n)) != 0)
 				{
 					// REVISIT: Only works if the StrDataType matches
-					if (memcmp(up, s1start, s1.numBytes()) == 0)
+					if (ep-up >= s1bytes && memcmp(up, s1start, s1bytes) == 0)
 						return n;
 					n++;
 				}
@@ -541,16 +546,21 @@ public:
 			}
 	int		rfind(const StrValI& s1, int before = -1) const
 			{
+				if (s1.length() > length() || before == 0)
+					return -1;			// Too long to occur here, or nowhere to look
+
 				Index		n = before == -1 ? length()-s1.length() : before-1;	// First Index we'll look at
 				if (n > length()-s1.length())
 					n = length()-s1.length();
 
 				const char*	s1start = s1.nthChar(0);
+				Index		s1bytes = s1.numBytes();
+				const char*	ep = nthChar(length());	// Don't look past our end
 				const char*	bp;
 				while ((bp = nthChar(n)) != 0)
 				{
 					// REVISIT: Only works if the StrDataType matches
-					if (memcmp(bp, s1start, s1.numBytes()) == 0)
+					if (ep-bp >= s1bytes && memcmp(bp, s1start, s1bytes) == 0)
 						return n;
 					n--;
 				}
-- 
2.43.0


From 2d2c3a4e858074031e34ecf94b90b7e67e61f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 14/87] fix: StrVal character search must not report the
 character following the string

---
 include/strval.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 4d845ce..b4de5b6 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -500,7 +500,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					if (ch == getChar(up))
 						return n;		// Found at n
@@ -572,7 +572,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					UCS4	ch = getChar(up);
 					for (Index i = 0; i < s1.length(); i++)
@@ -603,7 +603,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					UCS4	ch = getChar(up);
 					for (Index i = 0; i < s1.length(); i++)
-- 
2.43.0


From ea385a145543cd66d36c9348ab5befcf88facb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 15/87] fix: mutating a StrVal substring must not affect the
 elided parts of its body

---
 include/strval.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index b4de5b6..2d77f61 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -820,10 +820,10 @@ private:
 
 	void		Unshare()
 			{
-				// A substring on Unallocated memory which is the last remaining ref
-				// cannot be terminated correctly, so must be copied even if unshared
-				bool	must_copy_static = body->isStatic() && offset+length() < body->numChars();
-				if (must_copy_static || body->isShared())
+				// The mutators work on a whole body, so a substring must
+				// be copied even if it's the last remaining ref
+				bool	is_substring = offset > 0 || offset+length() < body->numChars();
+				if (is_substring || body->isShared())
 					copyBody();
 			}
 
-- 
2.43.0


From 18d597049e2707dd667fa9576a37e2e77a79d444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 16/87] fix: a StrVal bookmark must not survive a change to the
 characters before it

---
 include/strval.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 2d77f61..0b1eaea 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -714,7 +714,7 @@ public:
 				Index		addend_length;		// Get length in bytes
 				const char*	ap = addend.asUTF8(addend_length);
 				body->insertBytes(nthChar(pos)-nthChar(0), ap, addend_length);
-				// REVISIT: update or nullify the bookmark if after insertion point
+				mark = Bookmark();	// The bookmark might be after the insertion point
 				num_chars += addend.length();
 				return *this;
 			}
@@ -730,6 +730,7 @@ public:
 				Unshare();	// REVISIT: Unshare only when first change must be made
 				body->toLower();
 				num_chars = body->numChars();
+				mark = Bookmark();
 				return *this;
 			}
 	StrValI&	toUpper()
@@ -737,6 +738,7 @@ public:
 				Unshare();	// REVISIT: Unshare only when first change must be made
 				body->toUpper();
 				num_chars = body->numChars();
+				mark = Bookmark();
 				return *this;
 			}
 	StrValI&	transform(const std::function<StrValI(const char*& cp, const char* ep)> xform, int after = -1);
@@ -746,6 +748,7 @@ public:
 				Unshare();
 				body->toJSON();
 				num_chars = body->numChars();
+				mark = Bookmark();
 				return *this;
 			}
 
@@ -807,14 +810,11 @@ private:
 	void		copyBody()
 			{
 				// Copy only this slice of the body's data, and reset our offset to zero
-				Bookmark	savemark(mark);			// copy the bookmark
 				const char*	cp = nthChar(0);		// start of this substring
 				const char*	ep = nthChar(length());		// end of this substring
-				Index		prefix_bytes = cp - body->nthChar(0, mark); // How many leading bytes of the body we are eliding
 
 				body = new Body(cp, body->isRawBinary() ? StrRawBinary : StrUTF8, ep-cp);
-				mark.char_num = savemark.char_num - offset;	// Restore the bookmark
-				mark.byte_num = savemark.byte_num - prefix_bytes;
+				mark = Bookmark();		// The bookmark might be outside this substring
 				offset = 0;
 			}
 
-- 
2.43.0


From b115b0171f25fba24cced7324e9a74908d663e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 17/87] fix: inserting a StrVal into itself must not use its
 freed data

---
 include/strval.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 0b1eaea..10b6ce4 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -708,14 +708,15 @@ public:
 					return *this;
 				}
 
-				Unshare();
-
 				// REVISIT: Handle StrRawBinary data
+				const Base	source(addend);		// Preserve the addend's data even if it shares our body
 				Index		addend_length;		// Get length in bytes
 				const char*	ap = addend.asUTF8(addend_length);
+
+				Unshare();
 				body->insertBytes(nthChar(pos)-nthChar(0), ap, addend_length);
 				mark = Bookmark();	// The bookmark might be after the insertion point
-				num_chars += addend.length();
+				num_chars += source.length();
 				return *this;
 			}
 	StrValI&	append(const StrValI& addend)
-- 
2.43.0


From bd3cbccce193cf9a096a44bcb843f35e56723937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 18/87] fix: StrVal must count characters before the body can
 be shared across threads

---
 include/strval.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 10b6ce4..28c766e 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -186,7 +186,10 @@ public:	void		insertBytes(Index pos, const char* addend, Index len)
 			{
 				Body::insert(pos, addend, len);
 				if (!isRawBinary())
-					num_chars = 0;	// Force a re-count
+				{			// Re-count now, before this Body can be shared with another thread
+					num_chars = 0;
+					countChars();
+				}
 			}
 	void		transform(const std::function<Val(const char*& cp, const char* ep)> xform, int after = -1);
 	void		toLower()
@@ -340,7 +343,7 @@ public:
 				UTF8Put(op, character);
 				*op = '\0';
 				body = new Body(one_char, StrUTF8, op-one_char);
-				num_chars = 1;
+				num_chars = body->numChars();	// Count now, before this Body can be shared with another thread
 			}
 	StrRefI(Body* s1)		// New reference to same string body; used for static strings
 			: body(s1), offset(0), num_chars(s1->numChars()) { }
@@ -716,7 +719,7 @@ public:
 				Unshare();
 				body->insertBytes(nthChar(pos)-nthChar(0), ap, addend_length);
 				mark = Bookmark();	// The bookmark might be after the insertion point
-				num_chars += source.length();
+				num_chars = body->numChars();
 				return *this;
 			}
 	StrValI&	append(const StrValI& addend)
@@ -817,6 +820,7 @@ private:
 				body = new Body(cp, body->isRawBinary() ? StrRawBinary : StrUTF8, ep-cp);
 				mark = Bookmark();		// The bookmark might be outside this substring
 				offset = 0;
+				(void)body->numChars();		// Count now, before this Body can be shared with another thread
 			}
 
 	void		Unshare()
-- 
2.43.0


From b26550b6f0df364e6a9b565023ec0e00cda125c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 19/87] fix: StrVal::asInt32() must report overflow of the
 requested type

---
 include/strval.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 28c766e..55c4d43 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1095,7 +1095,7 @@ int32_t StrValI<Index>::asInt32(
 	if (scanned)
 		*scanned = i;
 
-	if (l > (unsigned long)LONG_MAX+(negative ? 1 : 0))
+	if (l > (unsigned long)INT32_MAX+(negative ? 1 : 0))
 	{
 		if (err_return)
 			*err_return = ErrNum(STRERR_SET, STRERR_NUMBER_OVERFLOW);
@@ -1103,10 +1103,10 @@ int32_t StrValI<Index>::asInt32(
 	}
 
 	/*
-	 * Casting unsigned long down to long doesn't clear the high bit
+	 * Casting unsigned long down doesn't clear the high bit
 	 * on a twos-complement architecture:
 	 */
-	return negative ? -(long)l : (long)l;
+	return (int32_t)(negative ? 0-l : l);
 
 no_digits:
 	if (err_return)
-- 
2.43.0


From 671487b94bcf1e7d319be82e4cb12ae2a6c49585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 20/87] fix: StrVal::asInt32() must accept a 0b or 0x prefix
 with radix 2 or 16, as documented

---
 include/strval.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 55c4d43..58b62fb 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1026,7 +1026,7 @@ int32_t StrValI<Index>::asInt32(
 			goto no_digits;
 	}
 
-	if (radix == 0)		// Auto-detect radix (octal, decimal, binary)
+	if (radix == 0 || radix == 2 || radix == 16)	// Auto-detect radix (octal, decimal, binary), or skip the radix prefix
 	{
 		if (UCS4Digit(ch) == 0 && i+1 < len)
 		{
@@ -1057,7 +1057,7 @@ int32_t StrValI<Index>::asInt32(
 				break;
 			}
 		}
-		else
+		else if (radix == 0)
 			radix = 10;
 	}
 
-- 
2.43.0


From 9391d695dc3ad98d8656b6e71fab5915d8cc0369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 21/87] fix: StrVal::toJSON() must use valid JSON escapes for
 NUL and for surrogate pairs

---
 include/strval.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 58b62fb..c3b90ce 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1142,8 +1142,6 @@ StrBodyI<Index>::toJSON()
 			char*	op = one_char;		// Pack it into our local buffer
 			switch (ch)
 			{
-			case '\0':	// Null Byte
-				*op++ = '\\'; *op++ = '0'; break;
 			case '\"':	// Double quote
 				*op++ = '\\'; *op++ = '\"'; break;
 			case '\\':	// Backslash character
@@ -1193,8 +1191,9 @@ StrBodyI<Index>::toJSON()
 				}
 
 				// We need two surrogates for Emoji's etc.
-				assert(ch <= 0xFFFFF);
-				// Surrogate pair: D800 to DBFF, Low surrogate: D800 to DBFF
+				assert(ch <= 0x10FFFF);
+				// Surrogate pair: High surrogate: D800 to DBFF, Low surrogate: DC00 to DFFF
+				ch -= 0x10000;
 				u4(0xD800+((ch>>10)&0x3FF), op);
 				u4(0xDC00+(ch&0x3FF), op);
 				break;
-- 
2.43.0


From 8637a9d40e336946c656bd4f5768d6fe231851a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 22/87] fix: StrBody::putChar() must store a raw binary
 character once, not twice

---
 include/strval.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index c3b90ce..80a36dc 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -282,7 +282,8 @@ protected:
 			{
 				if (isRawBinary())
 					*cp++ = ch;	// REVISIT: Panic on oversized char
-				UTF8Put(cp, ch);
+				else
+					UTF8Put(cp, ch);
 			}
 };
 
-- 
2.43.0


From d646828ab18b175d870e6829187b1ea130a104a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 23/87] fix: CowMap::put() must not erase the key from a body
 shared with other maps

---
 include/cowmap.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/cowmap.h b/include/cowmap.h
index 7e46a13..c543a1d 100644
--- a/include/cowmap.h
+++ b/include/cowmap.h
@@ -75,11 +75,10 @@ public:
 			{ Unshare(); body->erase(k); }
 	Key	put(const Key& k, Value v)
 			{
-				auto search = find(k);
-				if (search != end())
-					body->erase(k);
-				insert(k, v);
-				return k;
+				const Key	key(k);		// k might refer to the key we're about to erase
+				remove(key);
+				insert(key, v);
+				return key;
 			}
 
 	// Functional methods (these don't mutate or Unshare the subject):
-- 
2.43.0


From dbc32499e8794598c85bcb61d37d0e7ae18a75f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 24/87] fix: CowMap functional methods did not compile

---
 include/cowmap.h | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/cowmap.h b/include/cowmap.h
index c543a1d..0d665b4 100644
--- a/include/cowmap.h
+++ b/include/cowmap.h
@@ -84,35 +84,35 @@ public:
 	// Functional methods (these don't mutate or Unshare the subject):
 	Array<Key>	keys() const
 			{
-				Array<K>	all_keys((Value*)0, 0, size());
+				Array<K>	all_keys((Key*)0, 0, size());
 				for (Iter it = begin(); it != end(); it++)
-					all_keys.append(it.first);
+					all_keys.append(it->first);
 				return all_keys;
 			}
 	Array<Value>	values() const
 			{
 				Array<Value>	all_values((Value*)0, 0, size());
 				for (Iter it = begin(); it != end(); it++)
-					all_values.append(it.second);
+					all_values.append(it->second);
 				return all_values;
 			}
 
 	void		each(std::function<void(const Key& k, const Value& v)> operation) const
 			{
 				for (Iter it = begin(); it != end(); it++)
-					operation(it.first, it.second);
+					operation(it->first, it->second);
 			}
 	bool		all(std::function<bool(const Key& k, const Value& v)> condition) const	// Do all elements satisfy the condition?
 			{
 				for (Iter it = begin(); it != end(); it++)
-					if (!condition(it.first, it.second))
+					if (!condition(it->first, it->second))
 						return false;
 				return true;
 			}
 	bool		any(std::function<bool(const Key& k, const Value& v)> condition) const	// Does any element satisfy the condition?
 			{
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
+					if (condition(it->first, it->second))
 						return true;
 				return false;
 			}
@@ -120,7 +120,7 @@ public:
 			{
 				bool		found = false;
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
+					if (condition(it->first, it->second))
 					{
 						if (found)
 							return false;
@@ -134,8 +134,8 @@ public:
 				CowMap	selected;
 
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
-						selected.put(it.first, it.second);
+					if (condition(it->first, it->second))
+						selected.put(it->first, it->second);
 				return selected;
 			}
 	template<typename V2 = V, typename K2 = K>
@@ -143,7 +143,10 @@ public:
 			{
 				CowMap<V2, K2>	output;
 				for (Iter it = begin(); it != end(); it++)
-					output.append(map1(it.first, it.second));
+				{
+					std::pair<K2, V2>	entry = map1(it->first, it->second);
+					output.put(entry.first, entry.second);
+				}
 				return output;
 			}
 	template<typename J>
@@ -151,7 +154,7 @@ public:
 			{
 				J	accumulator = start;
 				for (Iter it = begin(); it != end(); it++)
-					accumulator = injection(accumulator, it.first, it.second);
+					accumulator = injection(accumulator, it->first, it->second);
 				return accumulator;
 			}
 
-- 
2.43.0


From 7f22414411eca7be7b215687a47c1441ddd0b6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 25/87] fix: Variant coercion between integer types must change
 the type

---
 include/variant.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/variant.h b/include/variant.h
index 7f1065f..cbcdbf1 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -288,9 +288,9 @@ protected:
 			{
 			case Integer:	return; // Already handled
 			case Long:	if (u.l != (int)u.l) break;	// Fail if it would truncate
-					u.i = (int)u.l; return;
+					u.i = (int)u.l; _type = new_type; return;
 			case LongLong:	if (u.ll != (int)u.ll) break;	// Fail if it would truncate
-					u.i = (int)u.ll; return;
+					u.i = (int)u.ll; _type = new_type; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);
 					if (!e)				// Some error in conversion
 						break;
@@ -308,10 +308,10 @@ protected:
 		case Long:
 			switch (old_type)
 			{
-			case Integer:	u.l = u.i; return;
+			case Integer:	u.l = u.i; _type = new_type; return;
 			case Long:	return; // Already handled
 			case LongLong:	if (u.ll != (long)u.ll) break;	// Fail if it would truncate
-					u.l = (long)u.ll; return;
+					u.l = (long)u.ll; _type = new_type; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (!e)				// Some error in conversion
 						break;
@@ -329,8 +329,8 @@ protected:
 		case LongLong:
 			switch (old_type)
 			{
-			case Integer:	u.l = u.i; return;
-			case Long:	u.ll = u.l; return;
+			case Integer:	u.ll = u.i; _type = new_type; return;
+			case Long:	u.ll = u.l; _type = new_type; return;
 			case LongLong:	return; // Already handled
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (e)				// Some error in conversion
-- 
2.43.0


From c837f8bf6344a732e9d4b2e84d07983eac359304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 26/87] fix: Variant coercion from String must fail on a
 conversion error, not on success

---
 include/variant.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/variant.h b/include/variant.h
index cbcdbf1..0ce0893 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -292,7 +292,7 @@ protected:
 			case LongLong:	if (u.ll != (int)u.ll) break;	// Fail if it would truncate
 					u.i = (int)u.ll; _type = new_type; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);
-					if (!e)				// Some error in conversion
+					if (e)				// Some error in conversion
 						break;
 					u.i = i32;
 					_type = new_type;
@@ -313,7 +313,7 @@ protected:
 			case LongLong:	if (u.ll != (long)u.ll) break;	// Fail if it would truncate
 					u.l = (long)u.ll; _type = new_type; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
-					if (!e)				// Some error in conversion
+					if (e)				// Some error in conversion
 						break;
 					u.l = i32;
 					_type = new_type;
-- 
2.43.0


From 714538096ff047ac043e6fbedfec6953c6e4da52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 27/87] fix: Variant coercion from String must release the
 string

---
 include/variant.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/variant.h b/include/variant.h
index 0ce0893..f2c644b 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -294,6 +294,7 @@ protected:
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);
 					if (e)				// Some error in conversion
 						break;
+					coerce_none();			// Discard the string
 					u.i = i32;
 					_type = new_type;
 					return;
@@ -315,6 +316,7 @@ protected:
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (e)				// Some error in conversion
 						break;
+					coerce_none();			// Discard the string
 					u.l = i32;
 					_type = new_type;
 					return;
@@ -335,6 +337,7 @@ protected:
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (e)				// Some error in conversion
 						break;
+					coerce_none();			// Discard the string
 					u.ll = i32;
 					_type = new_type;
 					return;
-- 
2.43.0


From bc29cdc8f31e80410d618ac4eb20c2ae3e9821ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 28/87] fix: ErrNum flags must be the two high-order bits, as
 documented

---
 include/error.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/error.h b/include/error.h
index dc39a73..e74c9f0 100644
--- a/include/error.h
+++ b/include/error.h
@@ -38,8 +38,8 @@
 class ErrNum
 {
 public:
-	static const int32_t	ERR_FLAG = 0x8000000;	// Sign bit is used to indicate an error, allowing quick checks
-	static const int32_t	ERR_CUST = 0x4000000;	// Including this bit guarantees no collision with Microsoft subsystem codes
+	static const int32_t	ERR_FLAG = INT32_MIN;	// Sign bit is used to indicate an error, allowing quick checks
+	static const int32_t	ERR_CUST = 0x40000000;	// Including this bit guarantees no collision with Microsoft subsystem codes
 
 	constexpr ErrNum()
 			: errnum(0) {}
-- 
2.43.0


From 7f92273aa11f7e0d433a8374dca6543efbcf5167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 29/87] fix: UTF8Len() must not look past a NUL that truncates
 a UTF-8 sequence

---
 include/char_encoding.h | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index bc3f613..bbd423e 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -155,23 +155,14 @@ UTF8CorrectLen(UTF8 c)
 inline int
 UTF8Len(const UTF8* cp)	// REVISIT: Add an error callback pointer here?
 {
-	switch (int len = UTF8CorrectLen(*cp))
-	{	// This reminds me of Duff's Device :)
-	case 6: if (UTF8Is1st(cp[5])) goto illegal;
-		// Fall through
-	case 5: if (UTF8Is1st(cp[4])) goto illegal;
-		// Fall through
-	case 4: if (UTF8Is1st(cp[3])) goto illegal;
-		// Fall through
-	case 3: if (UTF8Is1st(cp[2])) goto illegal;
-		// Fall through
-	case 2: if (UTF8Is1st(cp[1])) goto illegal;
-		// Fall through
-	case 1:
+	int	len = UTF8CorrectLen(*cp);
+	int	checked = 1;
+	while (checked < len && !UTF8Is1st(cp[checked]))	// In order, so we don't look past a NUL or other 1st byte
+		checked++;
+	if (checked == len)
 		return len;
-	case 0:
-	default:					// Cannot happen, but keep the compiler happy
-	illegal:
+	else
+	{
 #if defined(UTF8_ASSERT)
 		assert(!"Illegal or unsupported UTF-8 sequence");
 		return 0;
-- 
2.43.0


From e4167ef0a794cca0d3f494895ce45bec080dbfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 30/87] fix: UTF8Backup() must handle a truncated sequence as
 UTF8Get() does

---
 include/char_encoding.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index bbd423e..f6f43de 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -240,8 +240,8 @@ UTF8Backup(const UTF8* cp, const UTF8* limit = 0)
 	for (const UTF8* sp = cp-1; sp >= limit; --sp)	// Backup to the limit
 		if (UTF8Is1st(*sp))			// Found the start char
 		{
-			if (UTF8CorrectLen(*sp) >= cp-sp)
-				return sp;		// Legal prefix (at least) of a UTF8 sequence
+			if (UTF8Len(sp) >= cp-sp)
+				return sp;		// Part (at least) of a legal UTF8 sequence
 			break;	// Illegal, backup 1 byte if this backup won't consume all bytes scanned
 		}
 	return cp-1;	// No start char (valid 1st byte) found
-- 
2.43.0


From efe80a234cf6c3d371725cacead228db18a3249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 31/87] fix: UTF8PutPaddedZero() used the lead byte for the
 wrong length

---
 include/char_encoding.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index f6f43de..aa2bb64 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -253,7 +253,7 @@ UTF8PutPaddedZero(UTF8*& cp, int length)
 	assert(length >= 0 && length <= 6);
 	if (length > 1)
 	{
-		*cp++ = "\x0\xC0\xE0\xF0\xF8\xFC"[length];	// Put lead byte with zero payload
+		*cp++ = "\x0\xC0\xE0\xF0\xF8\xFC"[length-1];	// Put lead byte with zero payload
 		while (--length > 0)
 			*cp++ = 0x80;				// Put trailing bytes with zero payload
 	}
-- 
2.43.0


From 466ba7723c52a5aacc9f0cfc9aa41d908430a57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 32/87] fix: UCS4Digit() never recognised ideographic zero and
 Hangzhou numerals

---
 src/char_encoding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/char_encoding.cpp b/src/char_encoding.cpp
index 5070720..29fb87d 100644
--- a/src/char_encoding.cpp
+++ b/src/char_encoding.cpp
@@ -115,7 +115,7 @@ UCS4Digit(UCS4 ch)
 	)
 	{
 		if (ch < rp->low)
-			return -1;		/* Short circuit */
+			break;			/* Short circuit */
 		if (ch <= rp->high)
 		{
 			last_memo = rp-UCS4_DigitRanges;
-- 
2.43.0


From f7ad99effedc571c84f0f5992648c5aa834ebb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 33/87] fix: NulGuardedCharPtr addition of a negative number
 must move backwards

---
 include/char_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/char_ptr.h b/include/char_ptr.h
index 182c29c..db91256 100644
--- a/include/char_ptr.h
+++ b/include/char_ptr.h
@@ -71,7 +71,7 @@ public:
 	NulGuardedCharPtr&	operator+=(int i)
 			{	const char* s = data;
 				while (i > 0 && *s != '\0') { s++; i--;}// Advance slowly
-				if (i < 0) s -= i;		// Or backup suddenly
+				if (i < 0) s += i;		// Or backup suddenly
 				data = s; return *this;
 			}
 	NulGuardedCharPtr	operator+(int i){ NulGuardedCharPtr t(*this); t += i; return t; }
-- 
2.43.0


From 6db9b95b64666693b7cd4115ef91a1af40629cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 34/87] fix: GuardedCharPtr must stay between its origin and
 the NUL in every operation

---
 include/char_ptr.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/char_ptr.h b/include/char_ptr.h
index db91256..db74c05 100644
--- a/include/char_ptr.h
+++ b/include/char_ptr.h
@@ -111,10 +111,27 @@ public:
 				while (i > 0 && *s != '\0') { s++; i--;}// Advance
 				if (-i > s-origin)	// Or backup
 					s = origin;	// Either return as far as the origin
-				else
+				else if (i < 0)
 					s += i;		// or backup as far as requested
 				data = s; return *this;
 			}
+	GuardedCharPtr	operator+(int i){ GuardedCharPtr t(*this); t += i; return t; }
+	GuardedCharPtr	operator-=(int i){ return *this += -i; }
+	GuardedCharPtr	operator-(int i){ GuardedCharPtr t(*this); t += -i; return t; }
+	long		operator-(GuardedCharPtr s)	{ return data-s.data; }
+	long		operator-(const char* s)	{ return data-s; }
+
+	// incr/decr functions:
+	GuardedCharPtr&	preincr()	{ NulGuardedCharPtr::preincr(); return *this; }
+	GuardedCharPtr	postincr()	{ GuardedCharPtr save(*this); ++*this; return save; }
+	GuardedCharPtr&	predecr()	{ if (!at_bot()) data--; return *this; }
+	GuardedCharPtr	postdecr()	{ GuardedCharPtr save(*this); --*this; return save; }
+
+	// incr/decr operators:
+	GuardedCharPtr	operator++(int)	{ return postincr(); }
+	GuardedCharPtr&	operator++()	{ return preincr(); }
+	GuardedCharPtr	operator--(int)	{ return postdecr(); }
+	GuardedCharPtr&	operator--()	{ return predecr(); }
 };
 
 #endif
-- 
2.43.0


From 3cb5af68d8d89c3f900963c322503f9d2bd5f7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 35/87] fix: GuardedUTF8Ptr must stay between its origin and
 the NUL in every operation

---
 include/utf8_ptr.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/utf8_ptr.h b/include/utf8_ptr.h
index 9aa9968..f2d345e 100644
--- a/include/utf8_ptr.h
+++ b/include/utf8_ptr.h
@@ -80,10 +80,26 @@ public:
 	GuardedUTF8Ptr&	operator+=(int i)
 			{	const UTF8* s = data;
 				while (i > 0 && *s != '\0') { UTF8Get(s); i--;}		// Advance
-				while (i < 0 && s > origin) { s = UTF8Backup(s); i++;}	// Or backup
+				while (i < 0 && s > origin) { s = UTF8Backup(s, origin); i++;}	// Or backup
 				data = (const UTF8*)s; return *this;
 			}
-	GuardedUTF8Ptr&	predecr()	{ !at_bot() && (data = (const UTF8*)UTF8Backup(data)); return *this; }
+	GuardedUTF8Ptr	operator+(int i){ GuardedUTF8Ptr t(*this); t += i; return t; }
+	GuardedUTF8Ptr	operator-=(int i){ return *this += -i; }
+	GuardedUTF8Ptr	operator-(int i){ GuardedUTF8Ptr t(*this); t += -i; return t; }
+	long		operator-(GuardedUTF8Ptr s)	{ return data-s.data; }
+	long		operator-(const char* cp)	{ return data-cp; }
+
+	// incr/decr functions:
+	GuardedUTF8Ptr&	preincr()	{ NulGuardedUTF8Ptr::preincr(); return *this; }
+	GuardedUTF8Ptr	postincr()	{ GuardedUTF8Ptr save(*this); ++*this; return save; }
+	GuardedUTF8Ptr&	predecr()	{ !at_bot() && (data = (const UTF8*)UTF8Backup(data, origin)); return *this; }
+	GuardedUTF8Ptr	postdecr()	{ GuardedUTF8Ptr save(*this); --*this; return save; }
+
+	// incr/decr operators:
+	GuardedUTF8Ptr	operator++(int)	{ return postincr(); }
+	GuardedUTF8Ptr&	operator++()	{ return preincr(); }
+	GuardedUTF8Ptr	operator--(int)	{ return postdecr(); }
+	GuardedUTF8Ptr&	operator--()	{ return predecr(); }
 	bool		at_bot()
 			{ return data == origin; }
 };
-- 
2.43.0


From 01b98de475809d1d7b6979348a6520cf8cf8ec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 36/87] fix: skipping a Pegexp repetition must also skip the
 atom it repeats

---
 include/pegexp.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pegexp.h b/include/pegexp.h
index 16176e6..8bd7cac 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -796,6 +796,9 @@ protected:
 
 		case '&':	// Positive lookahead assertion
 		case '!':	// Negative lookahead assertion
+		case '?':	// Zero or one
+		case '*':	// Zero or more
+		case '+':	// One or more
 			skip_atom(pattern);
 			break;
 
-- 
2.43.0


From 9417300af00b348205fa8a5ac6b4e2a94b6d157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 37/87] fix: a truncated Pegexp escape must not advance past
 the end of the pattern

---
 include/pegexp.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 8bd7cac..9df5ee3 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -401,6 +401,8 @@ protected:
 		}
 		if (rc != '\\')
 			return rc;
+		if (*pattern == '\0')			// Don't advance past the end of the pattern
+			return 0;
 		rc = *pattern++;
 		if (rc >= '0' && rc <= '7')		// Octal
 		{
@@ -416,9 +418,11 @@ protected:
 				return 0;
 			if ((braces = (*pattern == '{')))
 				pattern++;
-			rc = unhex(*pattern++);
-			if (rc < 0)
+			int first = unhex(*pattern);
+			if (first < 0)
 				return 0;		// Error: invalid first hex digit
+			rc = first;
+			pattern++;
 			int second = unhex(*pattern++);
 			if (second >= 0)
 				rc = (rc << 4) | second;
-- 
2.43.0


From 75643cc2ad0079f8580238f6882758bd1b7e583c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 38/87] fix: Pegexp \\L and \\U must not index ctype tables
 with a Unicode character

---
 include/char_encoding.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index aa2bb64..2bbffc9 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -84,6 +84,8 @@ inline bool	UCS4IsUTF16(UCS4 ch) { return ch < 0x00010000; }
 inline bool	isalpha(UCS4 c) { return UCS4IsAlphabetic(c); }
 inline bool	isdigit(UCS4 c) { return UCS4IsDecimal(c); }
 inline bool	isalnum(UCS4 c) { return UCS4IsAlphabetic(c) || UCS4IsDecimal(c); }
+inline bool	islower(UCS4 c) { return UCS4ToUpper(c) != c; }
+inline bool	isupper(UCS4 c) { return UCS4ToLower(c) != c; }
 inline UCS4	toupper(UCS4 c) { return UCS4ToUpper(c); }
 inline UCS4	tolower(UCS4 c) { return UCS4ToLower(c); }
 inline bool	isspace(UCS4 c) { return UCS4IsWhite(c); }
-- 
2.43.0


From 071847e9c4bd160a88a8987b161c8e7e004426c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 39/87] fix: Peg rule lookup must use the same order as the
 sorted rules

---
 include/peg.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/peg.h b/include/peg.h
index 1a28516..56c2192 100644
--- a/include/peg.h
+++ b/include/peg.h
@@ -280,11 +280,11 @@ public:
 			[](const void* key, const void* r2) {
 				const char*	key_name = (const char*)key;
 				const char*	rule_name = ((const Rule*)r2)->name;
-				int		len = strlen(rule_name);
+				int		len = strcspn(key_name, ">");	// The key isn't nul-terminated
 
 				int		cval = strncmp(key_name, rule_name, len);
-				if (cval == 0 && (key_name[len] != '>' && key_name[len] != '\0'))
-					cval = 1;	// This rule has a shortened version of this key
+				if (cval == 0 && rule_name[len] != '\0')
+					cval = -1;	// The key is a shortened version of this rule
 				return cval;
 			}
 		);
-- 
2.43.0


From 72625cc5c0e33bc5211d80a9b74a62c33ab9421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 40/87] fix: the default non-capturing Peg did not compile

---
 include/peg.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/peg.h b/include/peg.h
index 56c2192..029d903 100644
--- a/include/peg.h
+++ b/include/peg.h
@@ -60,6 +60,7 @@ class PegContextNoCapture
 {
 public:
 	using	Match = _Match;
+	using	State = typename Match::State;
 	using	Source = typename Match::Source;
 	using	PegexpT = PegPegexp<PegContextNoCapture>;
 	using	Rule = PegRuleNoCapture<PegexpT>;
@@ -92,11 +93,11 @@ public:
 	// When an atom of a Pegexp fails, the atom (pointer to start and end) and Source location are passed here
 	void		record_failure(PatternP op, PatternP op_end, Source location) {}
 
-	Match		match_result(Source from, Source to)	// Capture the range of text
+	Match		match_result(State from, State to)	// Capture the range of text
 			{ return Match(from, to); }
 
-	Match		match_failure(Source at)
-			{ return Match(at, Source()); }
+	Match		match_failure(State at)
+			{ return Match(at, at); }
 
 	PegT*		peg;
 	PegContextNoCapture* 	parent;
-- 
2.43.0


From a16c4653da45010e2697665f43c110b7cbdb879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 41/87] fix: a Peg rule must capture only labels that match a
 capture name exactly

---
 include/peg.h     | 4 ++--
 include/peg_ast.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/peg.h b/include/peg.h
index 029d903..1b0dbe0 100644
--- a/include/peg.h
+++ b/include/peg.h
@@ -32,7 +32,7 @@ public:
 	const char*	name;
 	PegexpT		expression;
 
-	bool		is_captured(const char* label) { return false; }
+	bool		is_captured(const char* label, int label_size) { return false; }
 };
 
 template<
@@ -178,7 +178,7 @@ public:
 			}
 
 			if (context->capture_disabled == 0	// If we're capturing
-			 && context->rule->is_captured(label))	// And the parent wants it
+			 && context->rule->is_captured(label, label_size))	// And the parent wants it
 			{
 				(void)context->capture(
 					label, label_size,
diff --git a/include/peg_ast.h b/include/peg_ast.h
index 592a16a..7672e8a 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -99,12 +99,12 @@ public:
 	// Labelled atoms or rules matching these capture names should be returned in the parse match:
 	const char**	captures;	// Pointer to zero-terminated array of string pointers.
 
-	bool is_captured(const char* label)	// label maybe not nul-terminated!
+	bool is_captured(const char* label, int label_size)	// label maybe not nul-terminated!
 	{
 		if (!captures)
 			return false;
 		for (int i = 0; captures[i]; i++)
-			if (0 == strncmp(captures[i], label, strlen(captures[i])))
+			if (0 == strncmp(captures[i], label, label_size) && captures[i][label_size] == '\0')
 				return true;
 		return false;
 	}
-- 
2.43.0


From 2ba83965d233d7e72ca1739804de4ca3fad8f622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 42/87] fix: a failed Peg parse must return the furthermost
 failures

---
 include/peg_ast.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/peg_ast.h b/include/peg_ast.h
index 7672e8a..fda2a16 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -231,7 +231,11 @@ public:
 	}
 
 	Match		match_failure(State at)
-	{ return Match(at, at); }
+	{
+		if (parent == 0)	// Report how far we got and what would allow us to continue
+			return Match(Variant(), furthermost_success, failures);
+		return Match(at, at);
+	}
 
 #if defined(PEG_TRACE)
 	int		depth()
-- 
2.43.0


From b9a93697ed9ee262b54070565d3c4338f0d461cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 43/87] fix: a labelled Pegexp atom must capture the text of
 that atom

---
 include/pegexp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 9df5ee3..6281ce2 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -748,7 +748,7 @@ protected:
 			if (context->capture_disabled == 0)
 				(void)context->capture(
 					name, name_end-name,
-					context->match_result(start_state, state),
+					Match(start_state, state),
 					context->repetition_nesting > 0
 				);
 		}
-- 
2.43.0


From 5d79add880efb10a15e956e58b057a43a39acaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 44/87] fix: a Thread must be initialised before joinAny() can
 inspect it

The state was indeterminate until the new thread ran (a recycled object looked
Ended), and was then set without holding the latch that protects it.
---
 include/thread.h | 4 +++-
 src/thread.cpp   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/thread.h b/include/thread.h
index 2531cfe..6f1b9b0 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -115,6 +115,8 @@ public:
 };
 
 Thread::Thread()
+: thread_id(0)
+, state(New)
 {
 #if	defined(HAVE_PTHREADS)
 	// pthread_create starts the thread immediately, before subclass construction has finished,
@@ -144,7 +146,7 @@ Thread::~Thread()
 	if (this == main_thread)
 		return;
 #if	defined(HAVE_PTHREADS)
-	assert(state == Ended);
+	assert(state != Started);	// Must be either ended, or never resumed
 #elif	defined(MSW)
 	if (state != Ended)
 	{		// It is possible to kill a thread on Windows but seriously ill-advised, because it can leave latches set, etc.
diff --git a/src/thread.cpp b/src/thread.cpp
index 417f4a1..1154d82 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -25,14 +25,16 @@ Thread::ThreadProc(void* _this)
 
 #if	defined(HAVE_PTHREADS)
 	// This code can be run *before* pthread_create has assigned the thread_id. Wait for it.
+	// The state must be set while holding the latch, because joinAny() looks at it.
 	thread_latch.enter();
 	assert(t->id());
+	t->state = Started;
 	thread_latch.leave();
 #elif	defined(MSW)
 	assert(t->handle());
-#endif
 
 	t->state = Started;
+#endif
 
 #if	defined(HAVE_PTHREADS)
 	void*	ret = (void*)(long)t->run();
-- 
2.43.0


From f8e0ffdace185cc9737fa1d7772585c37ebd33f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 45/87] fix: Thread::joinAny() must wait for the last remaining
 thread

The main thread is not in the map, so one entry is still a thread to be joined.
The last thread may also be joined by someone else while we wait.
---
 src/thread.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/thread.cpp b/src/thread.cpp
index 1154d82..18a380a 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -82,16 +82,17 @@ Thread*
 Thread::joinAny()
 {
 	thread_latch.enter();
-	if (threads.size() <= 1)
-	{
-		thread_latch.leave();
-		return 0;	// No threads except main
-	}
 
 	// Search for a thread whose state is Ended
 	// Remove it from the map and decrement the ended_threads count
 	for (;;)
 	{
+		if (threads.empty())
+		{
+			thread_latch.leave();
+			return 0;	// No threads except main, which is not in the map
+		}
+
 		if (ended_count == 0)	// None have exited but not been joined
 		{
 			ended_threads_condition.wait(&thread_latch);
-- 
2.43.0


From 3f8eab2d744b75fef674f8bf9af199088b1944d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 46/87] fix: joining a Thread must not race with re-use of its
 thread id

A thread being joined stayed in the map after pthread_join() had allowed its id
to be re-used, so a new thread could fail to be entered (or be removed), and a
thread returned by joinAny() was never joined, leaking its stack.
---
 src/thread.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/thread.cpp b/src/thread.cpp
index 18a380a..11876e6 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -110,7 +110,12 @@ Thread::joinAny()
 			threads.erase(tid);
 			assert(!Thread::find(tid));
 			ended_count--;
+			if (threads.empty())
+				ended_threads_condition.broadcast();	// There's nothing left for another joinAny
 			thread_latch.leave();
+#if	defined(HAVE_PTHREADS)
+			pthread_join(tid, 0);	// It has ended, reclaim its stack and allow the id to be re-used
+#endif
 			return thread;
 		}
 	}
@@ -125,21 +130,26 @@ Thread::join()		// Wait for this thread to end
 	assert(thread_id != 0);		// Can't join a thread that hasn't started
 
 #if	defined(HAVE_PTHREADS)
-	void*	retval; // Value returned from pthread_exit, or PTHREAD_CANCELLED
-	int	error = pthread_join(thread_id, &retval);
-	if (error)
-		; // posixError("join", error, thread_id);	// Translate and report the error
-
+	// Remove the thread from the map before pthread_join, which allows the id to be re-used
 	thread_latch.enter();
-	Thread* thread = Thread::find(thread_id);
-	if (thread)
+	while (Thread::find(thread_id) == this && state != Ended)
+		ended_threads_condition.wait(&thread_latch);
+	if (Thread::find(thread_id) != this)
 	{
-		int erased = threads.erase(thread_id);
-		assert(erased == 1);
-		ended_count--;
+		thread_latch.leave();
+		return;		// Someone else joined this thread before us
 	}
+	threads.erase(thread_id);
+	ended_count--;
+	if (threads.empty())
+		ended_threads_condition.broadcast();	// There's nothing left for joinAny
 	thread_latch.leave();
 
+	void*	retval; // Value returned from pthread_exit, or PTHREAD_CANCELLED
+	int	error = pthread_join(thread_id, &retval);
+	if (error)
+		; // posixError("join", error, thread_id);	// Translate and report the error
+
 #elif	defined(MSW)
 	if (state < THREAD_STATE_ENDED) // Thread hasn't finished yet, so wait
 	{
-- 
2.43.0


From 4d0d1888c27a8f831a8ac52d2da666ebeee95ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 47/87] fix: a timed Condition wait must wait for the given
 time

pthread_cond_timedwait requires an absolute time, not a delay.
---
 src/condition.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/condition.cpp b/src/condition.cpp
index 13adb95..0851015 100644
--- a/src/condition.cpp
+++ b/src/condition.cpp
@@ -6,6 +6,7 @@
  * continued, any thread that tries to signal it again will block.
  */
 #include	<unistd.h>
+#include	<time.h>
 
 #include	<thread.h>
 #include	<condition.h>
@@ -145,9 +146,15 @@ Condition::wait(		// Wait for a ticket
 {
 #if	defined(HAVE_PTHREADS)
 	int		retcode;
-	struct timespec	ts;
-	ts.tv_sec = (unsigned long)timeout / 1000;
-	ts.tv_nsec = (unsigned long)timeout % 1000 * 1000000L;
+	struct timespec	ts;		// The absolute time at which to stop waiting
+	clock_gettime(CLOCK_REALTIME, &ts);
+	ts.tv_sec += (unsigned long)timeout / 1000;
+	ts.tv_nsec += (unsigned long)timeout % 1000 * 1000000L;
+	if (ts.tv_nsec >= 1000000000L)
+	{
+		ts.tv_sec++;
+		ts.tv_nsec -= 1000000000L;
+	}
 	retcode = pthread_cond_timedwait(&cond, &user_latch->mutex, &ts);
 	if (retcode == ETIMEDOUT)
 	{
-- 
2.43.0


From f87510b483a2c635615932d1320e9a76af229877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 48/87] fix: RxProgram must use delete[] for its NFA

---
 rx/rxmatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 56d5835..d632d47 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -132,7 +132,7 @@ RxProgram::RxProgram(const char* _nfa, bool take_ownership)
 
 RxProgram::~RxProgram()
 {
-	if (nfa && nfa_owned) delete(nfa);
+	if (nfa && nfa_owned) delete[] nfa;
 }
 
 StrVal
-- 
2.43.0


From e7b6a304e3827c496f12a2b9186a356b31978021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 49/87] fix: a regular expression thread must continue after a
 named capture

---
 rx/rxmatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index d632d47..2fd15a6 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -397,7 +397,7 @@ next:
 		thread.station = instr.next;
 		TRACK(("\t\tthread %d saves end %d=%d\n", thread.thread_number, instr.capture_number, offset));
 		thread.result = thread.result.captureSet(instr.capture_number*2+1, offset);
-		break;
+		goto next;
 
 	case RxOp::RxoZero:
 		thread.result.counterPushZero(offset);
-- 
2.43.0


From 4bdc3d46fc6da15181337ae5111362a56c339d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 50/87] fix: negative lookahead must continue from the offset
 where it started

---
 rx/rxmatch.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 2fd15a6..a9611c3 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -433,13 +433,14 @@ next:
 	{
 		TRACK(("\t\tthread %d evaluating negative lookahead at %d, text %d '%c'\n", thread.thread_number, thread.station, offset, target[offset]&0xFF));
 		RxMatch		match(*this);
-		RxResult	result = match.matchAt(instr.next, offset);	// REVISIT: Arrange to not keep captures here
+		StrValIndex	lookahead_offset = offset;	// matchAt advances this
+		RxResult	result = match.matchAt(instr.next, lookahead_offset);	// REVISIT: Arrange to not keep captures here
 
 		if (!result)
 		{
 			// Not matched, as requested, so continue with the next instruction at the current offset
 			TRACK(("\t\tthread %d negative lookahead failed, so we can continue at offset %d\n", thread.thread_number, offset));
-			addthread(Thread(instr.alternate, thread.result, &thread), offset, shunts, num_shunt, instr.repetition.min);
+			addthread(Thread(instr.alternate, thread.result, &thread), offset, shunts, num_shunt);
 		}
 		else
 			TRACK(("\t\thread %d negative lookahead succeeded, abandon ship\n", thread.thread_number));
-- 
2.43.0


From 2dfe7d03775345a6547d897493924bd3901f9af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 51/87] fix: a regular expression repetition count must end at
 its closing brace

---
 rx/rxcompile.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 9dff646..352bab3 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -169,9 +169,9 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			param = re.substr(++i);
 			min = max = 0;
 			// Find the end of the first number:
-			close = param.find(',');
-			if (close < 0)
-				close = param.find('}'); // Just one number?
+			close = param.find('}');	// A comma counts only inside these braces
+			if (close >= 0 && param.substr(0, close).find(',') >= 0)
+				close = param.find(',');
 			if (close < 0)
 			{
 		bad_repetition:	error_message = "Bad repetition count";
-- 
2.43.0


From 48740565ff09f2e5531d423f0c148ed2da8c5fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 52/87] fix: unbalanced closing parenthesis in a regular
 expression must report an error message

---
 rx/rxcompile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 352bab3..bd0cf62 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -634,7 +634,7 @@ RxCompiler::compile(char*& nfa)
 				goto str_param;			// This string will be in the names table of RxoStart
 
 			case RxOp::RxoEndGroup:			// End of a group
-				if (nesting <= 0)
+				if (nesting <= 1)	// Only the RxoStart remains
 				{
 					error_message = "Too many closing parentheses";
 					return false;
-- 
2.43.0


From 7edbdc351d8bf7839fcbeda9dcc46e83d250279e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 53/87] fix: regular expression errorOffset must be that of the
 reported error

---
 rx/rxcompile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index bd0cf62..ace00aa 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -113,7 +113,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 
 	ok = func(RxToken(RxOp::RxoStart));
 	if (!ok) error_offset = i;
-	for (; ok && i < re.length(); i++)
+	for (; ok && !error_message && i < re.length(); i++)
 	{
 		switch (ch = re[i])
 		{
-- 
2.43.0


From 1f44d4ccbb1c8859724a96d920bc29356c648aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 54/87] fix: a regular expression repetition counter must not
 wrap at 32768

---
 rx/rxmatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index a9611c3..89d8852 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -408,7 +408,7 @@ next:
 	{
 		RxResult::Counter	previous = thread.result.counterTop();
 
-		short	counter = thread.result.counterIncr(offset);
+		StrValIndex	counter = thread.result.counterIncr(offset);
 
 		// Don't repeat unless the offset has increased since the last repeat (instead, just continue with next).
 		if (previous.offset == offset)
-- 
2.43.0


From 6e706847d13f212d533bcdcc7994006cd3240e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 55/87] fix: a repetition count of 65536 or more must not be
 truncated before it is checked

---
 rx/strregex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rx/strregex.h b/rx/strregex.h
index 5338b53..56eafec 100644
--- a/rx/strregex.h
+++ b/rx/strregex.h
@@ -87,8 +87,8 @@ enum class RxOp: char
 
 struct RxRepetitionRange
 {
-	uint16_t	min;
-	uint16_t	max;	// Zero means no maximum
+	uint32_t	min;
+	uint32_t	max;	// Zero means no maximum
 };
 
 class	RxToken;	// Passes information between the lexer and the parser
-- 
2.43.0


From bcdda8fe2fe4dd6ad0666abc1b859fb8af533160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 56/87] fix: a regular expression must allow more than 12
 alternates or optional items

The nesting limit was applied to every Split that is followed without consuming
text, so many valid expressions failed an assertion. Evaluate each shunt just once
per offset, so that removing the limit cannot take exponential time.
---
 rx/rxmatch.cpp | 51 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 89d8852..410b0a5 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -93,7 +93,14 @@ private:
 	RxStationID	current_count;		// How many of the above are populated
 	Thread*		next_threads;		// The threads that lead on from here
 	RxStationID	next_count;		// How many of the above are populated
-	void		addthread(Thread thread, StrValIndex offset, StrValIndex *shunts, StrValIndex num_shunt, StrValIndex max_duplicates_allowed = 0);
+
+	// Controls recursion in addthread: a chain of the shunts we're currently evaluating
+	struct Shunt {
+		RxStationID	station;
+		const Shunt*	outer;
+	};
+	std::vector<StrValIndex> shunted;	// For each shunt, 1+offset where it was last evaluated without counters
+	void		addthread(Thread thread, StrValIndex offset, const Shunt* outer, StrValIndex max_duplicates_allowed = 0);
 };
 
 static int32_t zagzig(int32_t i)
@@ -304,22 +311,29 @@ int	RxMatch::Thread::next_thread = 0;	// Sequential thread numbering to aid in d
 #endif
 
 void
-RxMatch::addthread(Thread thread, StrValIndex offset, StrValIndex* shunts, StrValIndex num_shunt, StrValIndex max_duplicates_allowed)
+RxMatch::addthread(Thread thread, StrValIndex offset, const Shunt* outer, StrValIndex max_duplicates_allowed)
 {
+	// Without counters, there's nothing new to find by evaluating the same shunt again at this offset
+	if (!thread.result.hasCounter())
+	{
+		if (thread.station >= shunted.size())
+			shunted.resize(thread.station+1, 0);
+		if (shunted[thread.station] == offset+1)
+		{
+			TRACK(("\t\tthread %d is already shunted\n", thread.thread_number));
+			return;
+		}
+		shunted[thread.station] = offset+1;
+	}
+
 	// Recursion control, prevents stack explosion on empty loops
-	for (int i = 0; i < num_shunt; i++)
-		if (shunts[i] == thread.station)
+	for (const Shunt* shunt = outer; shunt; shunt = shunt->outer)
+		if (shunt->station == thread.station)
 		{
 			TRACK(("\t\tthread %d would recurse\n", thread.thread_number));
 			return;
 		}
-	assert(num_shunt < RxMaxNesting);
-	if (num_shunt == RxMaxNesting)
-	{
-		TRACK(("\t\tthread %d would exceed nesting limit\n", thread.thread_number));
-		return;
-	}
-	shunts[num_shunt++] = thread.station;
+	const Shunt	shunts = { thread.station, outer };
 
 	int	duplicates = 0;
 	for (int i = 0; i < next_count; i++)
@@ -383,8 +397,8 @@ next:
 
 	case RxOp::RxoSplit:
 		// REVISIT: For non-greedy repetition, we need these addthread calls in opposite order (same for RxoCount)
-		addthread(Thread(instr.alternate, thread.result), offset, shunts, num_shunt);
-		addthread(Thread(instr.next, thread.result, &thread), offset, shunts, num_shunt);
+		addthread(Thread(instr.alternate, thread.result), offset, &shunts);
+		addthread(Thread(instr.next, thread.result, &thread), offset, &shunts);
 		break;
 
 	case RxOp::RxoCaptureStart:
@@ -416,14 +430,14 @@ next:
 
 		if ((counter <= instr.repetition.max || instr.repetition.max == 0)	// Greedily repeat
 		 && previous.offset <= offset)		// Only if we advanced
-			addthread(Thread(instr.alternate, thread.result), offset, shunts, num_shunt, instr.repetition.min);
+			addthread(Thread(instr.alternate, thread.result), offset, &shunts, instr.repetition.min);
 
 		if ((counter >= instr.repetition.min || previous.offset == offset)	// Reached minimum count, or will without advancing
 		 && (instr.repetition.max == 0 || counter <= instr.repetition.max))
 		{
 			RxResult	continuation = thread.result;
 			continuation.counterPop();	// The continuing thread has no further need of the counter
-			addthread(Thread(instr.next, continuation, &thread), offset, shunts, num_shunt, instr.repetition.min);
+			addthread(Thread(instr.next, continuation, &thread), offset, &shunts, instr.repetition.min);
 		}
 		thread.result.clear();
 	}
@@ -440,7 +454,7 @@ next:
 		{
 			// Not matched, as requested, so continue with the next instruction at the current offset
 			TRACK(("\t\tthread %d negative lookahead failed, so we can continue at offset %d\n", thread.thread_number, offset));
-			addthread(Thread(instr.alternate, thread.result, &thread), offset, shunts, num_shunt);
+			addthread(Thread(instr.alternate, thread.result, &thread), offset, &shunts);
 		}
 		else
 			TRACK(("\t\thread %d negative lookahead succeeded, abandon ship\n", thread.thread_number));
@@ -478,11 +492,10 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 {
 	Thread*		thread_p;
 	RxDecoded	instr;
-	StrValIndex 	shunts[RxMaxNesting];	// Controls recursion in addthread
 
 	// Start where directed, and step forward one character at a time, following all threads until successful or there are no threads left
 	next_count = 0;
-	addthread(Thread(start, RxResult(program.maxCounter(), program.maxCapture())), offset, shunts, 0);
+	addthread(Thread(start, RxResult(program.maxCounter(), program.maxCapture())), offset, (const Shunt*)0);
 	std::swap(current_threads, next_threads);
 	current_count = next_count;
 	next_count = 0;
@@ -636,7 +649,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 
 			case succeeded:			// This instruction succeeded, so continue with the next one
 				TRACK(("succeeds\n"));
-				addthread(Thread(instr.next, thread_p->result, thread_p), offset+1, shunts, 0);
+				addthread(Thread(instr.next, thread_p->result, thread_p), offset+1, (const Shunt*)0);
 				break;
 
 			case accepted:			// This thread has matched
-- 
2.43.0


From 5da718b5c7e8ae23cf9f4448202e7f0d95e2fcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 57/87] fix: a counted repetition with a minimum of zero must
 match zero repetitions

---
 rx/rxmatch.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 410b0a5..3f7108f 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -414,6 +414,21 @@ next:
 		goto next;
 
 	case RxOp::RxoZero:
+	{
+		// Find the RxoCount that ends this repetition. If its minimum is zero, the repeated item may be skipped
+		RxDecoded	count;
+		int		depth = 1;
+		for (RxStationID station = instr.next; depth > 0; station = count.next)
+		{
+			program.decode(station, count);
+			if (count.op == RxOp::RxoZero)
+				depth++;
+			else if (count.op == RxOp::RxoCount)
+				depth--;
+		}
+		if (count.repetition.min == 0)
+			addthread(Thread(count.next, thread.result, &thread), offset, &shunts);
+	}
 		thread.result.counterPushZero(offset);
 		thread = Thread(instr.next, thread.result, &thread);
 		goto next;
-- 
2.43.0


From 2cd4cbf99249ee4e1077fbfc1d43f202bd7b7605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 58/87] fix: regular expression threads must be distinguished
 by their repetition counters

A thread was discarded as a duplicate of another with different counters, so counted
repetitions could fail to match. The number of threads also could exceed maxStation,
failing an assertion.
---
 rx/rxmatch.cpp | 124 +++++++++++++++++++++----------------------------
 rx/strregex.h  |   2 +-
 2 files changed, 54 insertions(+), 72 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 3f7108f..8888ddb 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -39,7 +39,7 @@ public:
 	int		counterNum() const { return counters_used/2; }
 	int		counterGet(int i) const { return reserved() ? values[counterBase()+counters_used - i*2 - 1] : 0; }
 	void		counterPushZero(StrValIndex offset);
-	StrValIndex 	counterIncr(StrValIndex offset);
+	StrValIndex 	counterIncr(StrValIndex offset, StrValIndex limit);
 	void		counterPop();
 	const RxResult::Counter	counterTop();
 
@@ -89,10 +89,8 @@ private:
 	RxResult	result;			// Result from the successful thread
 
 	// Concurrent threads of execution:
-	Thread*		current_threads;	// The threads we're currently evaluating
-	RxStationID	current_count;		// How many of the above are populated
-	Thread*		next_threads;		// The threads that lead on from here
-	RxStationID	next_count;		// How many of the above are populated
+	std::vector<Thread> current_threads;	// The threads we're currently evaluating
+	std::vector<Thread> next_threads;	// The threads that lead on from here
 
 	// Controls recursion in addthread: a chain of the shunts we're currently evaluating
 	struct Shunt {
@@ -100,7 +98,7 @@ private:
 		const Shunt*	outer;
 	};
 	std::vector<StrValIndex> shunted;	// For each shunt, 1+offset where it was last evaluated without counters
-	void		addthread(Thread thread, StrValIndex offset, const Shunt* outer, StrValIndex max_duplicates_allowed = 0);
+	void		addthread(Thread thread, StrValIndex offset, const Shunt* outer);
 };
 
 static int32_t zagzig(int32_t i)
@@ -266,28 +264,20 @@ RxMatch::RxMatch(const RxProgram& _program, StrVal _target)
 : program(_program)
 , target(_target)
 {
-	int	i = program.maxStation();
-	current_threads = new Thread[i];
-	current_count = 0;
-	next_threads = new Thread[i];
-	next_count = 0;
+	current_threads.reserve(program.maxStation());
+	next_threads.reserve(program.maxStation());
 }
 
 RxMatch::RxMatch(const RxMatch& _tocopy)
 : program(_tocopy.program)
 , target(_tocopy.target)
 {
-	int	i = program.maxStation();
-	current_threads = new Thread[i];
-	current_count = 0;
-	next_threads = new Thread[i];
-	next_count = 0;
+	current_threads.reserve(program.maxStation());
+	next_threads.reserve(program.maxStation());
 }
 
 RxMatch::~RxMatch()
 {
-	delete[] current_threads;
-	delete[] next_threads;
 }
 
 RxMatch::Thread::Thread()
@@ -311,7 +301,7 @@ int	RxMatch::Thread::next_thread = 0;	// Sequential thread numbering to aid in d
 #endif
 
 void
-RxMatch::addthread(Thread thread, StrValIndex offset, const Shunt* outer, StrValIndex max_duplicates_allowed)
+RxMatch::addthread(Thread thread, StrValIndex offset, const Shunt* outer)
 {
 	// Without counters, there's nothing new to find by evaluating the same shunt again at this offset
 	if (!thread.result.hasCounter())
@@ -335,37 +325,6 @@ RxMatch::addthread(Thread thread, StrValIndex offset, const Shunt* outer, StrVal
 		}
 	const Shunt	shunts = { thread.station, outer };
 
-	int	duplicates = 0;
-	for (int i = 0; i < next_count; i++)
-	{
-		if (next_threads[i].station == thread.station)
-		{
-			if ((max_duplicates_allowed			// Check for an exact duplicate first
-				&& thread.result.countersSame(next_threads[i].result))
-			 || ++duplicates > max_duplicates_allowed)	// Or too many duplicates
-			{
-				// The above condition is not perfect - it fails with 5x nested counted repetitions for example.
-				// Failing to find a solution in such a pathological case doesn't bother me.
-				// Should we have a policy of deleting the duplicate with the lowest count?
-
-#ifdef TRACK_RESULTS
-				TRACK(("\t\tthread %d at %d is a duplicate", thread.thread_number, thread.station));
-				if (thread.result.hasCounter()) TRACK((" (count %d)", thread.result.counterTop().count));
-				TRACK((" of thread %d", next_threads[i].thread_number));
-				if (next_threads[i].result.hasCounter())
-				{
-					TRACK((" (counters"));
-					for (int i = 0; i < next_threads[i].result.counterNum(); i++)
-						TRACK((" %d", next_threads[i].result.counterGet(i)));
-					TRACK((")"));
-				}
-				TRACK(("\n"));
-#endif
-				return;		// We already have this thread
-			}
-		}
-	}
-
 	/*
 	 * If the opcode at the new thread won't consume text, evaluate it either by looping (tail recursion) or a recursive call
 	 */
@@ -437,7 +396,8 @@ next:
 	{
 		RxResult::Counter	previous = thread.result.counterTop();
 
-		StrValIndex	counter = thread.result.counterIncr(offset);
+		// If there's no maximum, it's only necessary to count to the minimum
+		StrValIndex	counter = thread.result.counterIncr(offset, instr.repetition.max ? 0 : instr.repetition.min);
 
 		// Don't repeat unless the offset has increased since the last repeat (instead, just continue with next).
 		if (previous.offset == offset)
@@ -445,14 +405,14 @@ next:
 
 		if ((counter <= instr.repetition.max || instr.repetition.max == 0)	// Greedily repeat
 		 && previous.offset <= offset)		// Only if we advanced
-			addthread(Thread(instr.alternate, thread.result), offset, &shunts, instr.repetition.min);
+			addthread(Thread(instr.alternate, thread.result), offset, &shunts);
 
 		if ((counter >= instr.repetition.min || previous.offset == offset)	// Reached minimum count, or will without advancing
 		 && (instr.repetition.max == 0 || counter <= instr.repetition.max))
 		{
 			RxResult	continuation = thread.result;
 			continuation.counterPop();	// The continuing thread has no further need of the counter
-			addthread(Thread(instr.next, continuation, &thread), offset, &shunts, instr.repetition.min);
+			addthread(Thread(instr.next, continuation, &thread), offset, &shunts);
 		}
 		thread.result.clear();
 	}
@@ -478,6 +438,31 @@ next:
 		break;
 
 	default:
+		// Threads at the same station are duplicates unless their repetition counters differ
+		for (int i = 0; i < next_threads.size(); i++)
+		{
+			if (next_threads[i].station == thread.station)
+			{
+				if (thread.result.countersSame(next_threads[i].result))
+				{
+#ifdef TRACK_RESULTS
+					TRACK(("\t\tthread %d at %d is a duplicate", thread.thread_number, thread.station));
+					if (thread.result.hasCounter()) TRACK((" (count %d)", thread.result.counterTop().count));
+					TRACK((" of thread %d", next_threads[i].thread_number));
+					if (next_threads[i].result.hasCounter())
+					{
+						TRACK((" (counters"));
+						for (int i = 0; i < next_threads[i].result.counterNum(); i++)
+							TRACK((" %d", next_threads[i].result.counterGet(i)));
+						TRACK((")"));
+					}
+					TRACK(("\n"));
+#endif
+					return;		// We already have this thread
+				}
+			}
+		}
+
 #ifdef TRACK_RESULTS
 		TRACK(("\t\t... thread %d at instr %d, offset %d with captures ", thread.thread_number, thread.station, offset));
 		for (int i = 0; i < thread.result.captureMax(); i++)
@@ -491,10 +476,7 @@ next:
 		}
 		TRACK(("\n"));
 #endif
-		assert(next_count < program.maxStation());
-		if (next_count < program.maxStation())
-			next_threads[next_count++] = thread;
-		// else the compiler let us down; silently ignore this possible path and hope something else matches correctly
+		next_threads.push_back(thread);
 	}
 };
 
@@ -509,15 +491,14 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 	RxDecoded	instr;
 
 	// Start where directed, and step forward one character at a time, following all threads until successful or there are no threads left
-	next_count = 0;
+	next_threads.clear();
 	addthread(Thread(start, RxResult(program.maxCounter(), program.maxCapture())), offset, (const Shunt*)0);
 	std::swap(current_threads, next_threads);
-	current_count = next_count;
-	next_count = 0;
-	for (; current_count > 0 && offset <= target.length(); offset++)
+	next_threads.clear();
+	for (; current_threads.size() > 0 && offset <= target.length(); offset++)
 	{
-		TRACK(("\ncycle at offset %d with %d threads looking at '%s'\n", offset, current_count, target.substr(offset, 1).asUTF8()));
-		for (thread_p = current_threads; thread_p < current_threads+current_count; thread_p++)
+		TRACK(("\ncycle at offset %d with %d threads looking at '%s'\n", offset, (int)current_threads.size(), target.substr(offset, 1).asUTF8()));
+		for (thread_p = current_threads.data(); thread_p < current_threads.data()+current_threads.size(); thread_p++)
 		{
 			RxStationID	pc = thread_p->station;
 			program.decode(pc, instr);
@@ -689,8 +670,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 		}
 
 		std::swap(current_threads, next_threads);
-		current_count = next_count;
-		next_count = 0;
+		next_threads.clear();
 	}
 
 	// If we have a result, it's in `result`.
@@ -698,8 +678,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 	// REVISIT: Might it be useful to know on which Station(s) we ran out of input? Or callback to get more?
 
 	// Wipe old result references, we already copied the one we chose:
-	for (thread_p = current_threads; thread_p < current_threads+current_count; thread_p++)
-		thread_p->result.clear();
+	current_threads.clear();
 	return result;
 }
 
@@ -738,13 +717,16 @@ RxCaptures::counterPushZero(StrValIndex offset)
 }
 
 StrValIndex
-RxCaptures::counterIncr(StrValIndex offset)
+RxCaptures::counterIncr(StrValIndex offset, StrValIndex limit)
 {
 	reserve();
 	assert(counters_used > 0);
 	// TRACK(("Incrementing counter %d = %d\n", counters_used-1, values.at(counterBase()+counters_used-1)+1));
 	values.at(counterBase()+counters_used-2) = offset;
-	return ++values.at(counterBase()+counters_used-1);
+	StrValIndex&	counter = values.at(counterBase()+counters_used-1);
+	if (limit == 0 || counter < limit)
+		++counter;
+	return counter;
 }
 
 void
@@ -912,11 +894,11 @@ RxResult::counterPushZero(StrValIndex offset)	// Push a zero counter
 }
 
 StrValIndex
-RxResult::counterIncr(StrValIndex offset)	// Increment and return top counter of stack
+RxResult::counterIncr(StrValIndex offset, StrValIndex limit)	// Increment and return top counter of stack
 {
 	Unshare();
 	assert(captures);
-	return captures->counterIncr(offset);
+	return captures->counterIncr(offset, limit);
 }
 
 void
diff --git a/rx/strregex.h b/rx/strregex.h
index 56eafec..6afcc61 100644
--- a/rx/strregex.h
+++ b/rx/strregex.h
@@ -209,7 +209,7 @@ public:
 	bool		countersSame(RxResult& other) const;
 	int		counterGet(int = 0) const;		// get the nth top counter
 	void		counterPushZero(StrValIndex offset);	// Push a zero counter at this offset
-	StrValIndex	counterIncr(StrValIndex offset);	// Increment and return top counter of stack
+	StrValIndex	counterIncr(StrValIndex offset, StrValIndex limit = 0);	// Increment (to any limit) and return top counter of stack
 	void		counterPop();		// Discard the top counter of the stack
 	const Counter	counterTop();		// Top counter value, if any
 
-- 
2.43.0


From 08bc4270cdf3611c9a90439311ffd4d0c974e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 59/87] fix: a regular expression NFA must have space for all
 its offsets while they are padded

The size was computed without the doubling caused by zigzag coding.
---
 rx/rxcompile.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index ace00aa..f803c6d 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -732,9 +732,8 @@ RxCompiler::compile(char*& nfa)
 	offset_max_bytes = UTF8Len(2*(bytes_required+offsets_required*offset_max_bytes));	/// Based on actual offset size
 
 	// The maximum size of the nfa is thus (bytes_required+offsets_required*offset_max_bytes)
-	// Now we know this, we know the maximum size of an actual offset and can get close to the actual NFA size.
 	// This might be a tad high as some offsets might shrink, but not by much.
-	bytes_required += offsets_required * UTF8Len(bytes_required+offsets_required*offset_max_bytes);
+	bytes_required += offsets_required * offset_max_bytes;
 	// printf("Allocating %d bytes for the NFA\n", bytes_required);
 
 	nfa = new UTF8[bytes_required+1];
-- 
2.43.0


From 11b69837b0b88cea8b35f3aa14ed428f48fd3c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 60/87] fix: patching an offset in a regular expression NFA
 must allow for it to shrink further

---
 rx/rxcompile.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index f803c6d..a8e799e 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -818,14 +818,17 @@ RxCompiler::compile(char*& nfa)
 			 * Patch the offset there to point to offset_to.
 			 * If the offset fits in fewer than offset_max_bytes UTF-8 bytes, we must shuffle down.
 			 * This reduces the offset, which can cause it to cross a UTF-8 coding boundary,
-			 * taking one fewer bytes, a process that can only happen once(?).
+			 * taking one fewer bytes. Find the smallest number of bytes that's enough.
 			 */
 			int		offset = offset_to - patch_location;
-			StrValIndex	byte_count = UTF8Len(zigzag(offset));
-			StrValIndex	shrinkage = offset_max_bytes - byte_count;
-			if (byte_count < offset_max_bytes	// We'll shuffle
-			 && patch_location < offset_to)		// And the patch location is prior to the target
-				offset -= shrinkage;		// The offset is now smaller
+			if (patch_location < offset_to)		// The patch location is prior to the target
+			{
+				StrValIndex	byte_count = 1;
+				while (byte_count < offset_max_bytes
+				 && UTF8Len(zigzag(offset-(int)(offset_max_bytes-byte_count))) > byte_count)
+					byte_count++;
+				offset -= offset_max_bytes-byte_count;	// The offset is smaller if we'll shuffle
+			}
 
 			return patch_value_at(patch_location, offset);
 		};
-- 
2.43.0


From c830d964bb32d750ba93fa13a4e40136ffbba8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 61/87] fix: a counted repetition of a group that can match
 nothing must count correctly

Recursion control ignored the counters, so a repeated group could not be left after
passing the same shunt with a different count. What has been evaluated at each offset
is now known by the counters as well.
---
 rx/rxmatch.cpp | 114 +++++++++++++++++++++++--------------------------
 rx/strregex.h  |   1 +
 2 files changed, 54 insertions(+), 61 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 8888ddb..bc5b456 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -6,6 +6,7 @@
  */
 #include	<strregex.h>
 #include	<cstring>
+#include	<set>
 #include	<utility>
 
 #ifdef	TRACK_RESULTS
@@ -38,6 +39,7 @@ public:
 
 	int		counterNum() const { return counters_used/2; }
 	int		counterGet(int i) const { return reserved() ? values[counterBase()+counters_used - i*2 - 1] : 0; }
+	StrValIndex	counterOffset(int i) const { return reserved() ? values[counterBase()+counters_used - i*2 - 2] : 0; }
 	void		counterPushZero(StrValIndex offset);
 	StrValIndex 	counterIncr(StrValIndex offset, StrValIndex limit);
 	void		counterPop();
@@ -92,13 +94,12 @@ private:
 	std::vector<Thread> current_threads;	// The threads we're currently evaluating
 	std::vector<Thread> next_threads;	// The threads that lead on from here
 
-	// Controls recursion in addthread: a chain of the shunts we're currently evaluating
-	struct Shunt {
-		RxStationID	station;
-		const Shunt*	outer;
-	};
-	std::vector<StrValIndex> shunted;	// For each shunt, 1+offset where it was last evaluated without counters
-	void		addthread(Thread thread, StrValIndex offset, const Shunt* outer);
+	// Each station or shunt is evaluated only once at each offset, unless the counters differ
+	std::vector<StrValIndex> evaluated;	// For each one, 1+offset where it was last evaluated without counters
+	std::set<std::vector<StrValIndex>> counted;	// Those that were evaluated at counted_offset with counters
+	StrValIndex	counted_offset;
+	bool		evaluate(const Thread& thread, StrValIndex offset);
+	void		addthread(Thread thread, StrValIndex offset);
 };
 
 static int32_t zagzig(int32_t i)
@@ -263,6 +264,7 @@ RxProgram::decode(RxStationID station, RxDecoded& instr) const
 RxMatch::RxMatch(const RxProgram& _program, StrVal _target)
 : program(_program)
 , target(_target)
+, counted_offset(0)
 {
 	current_threads.reserve(program.maxStation());
 	next_threads.reserve(program.maxStation());
@@ -271,6 +273,7 @@ RxMatch::RxMatch(const RxProgram& _program, StrVal _target)
 RxMatch::RxMatch(const RxMatch& _tocopy)
 : program(_tocopy.program)
 , target(_tocopy.target)
+, counted_offset(0)
 {
 	current_threads.reserve(program.maxStation());
 	next_threads.reserve(program.maxStation());
@@ -300,36 +303,44 @@ RxMatch::Thread::Thread(RxStationID s, RxResult r, const Thread* predecessor)
 int	RxMatch::Thread::next_thread = 0;	// Sequential thread numbering to aid in debug traces
 #endif
 
-void
-RxMatch::addthread(Thread thread, StrValIndex offset, const Shunt* outer)
+// Return false if we've already evaluated this station at this offset. Prevents duplicate threads and empty loops
+bool
+RxMatch::evaluate(const Thread& thread, StrValIndex offset)
 {
-	// Without counters, there's nothing new to find by evaluating the same shunt again at this offset
 	if (!thread.result.hasCounter())
 	{
-		if (thread.station >= shunted.size())
-			shunted.resize(thread.station+1, 0);
-		if (shunted[thread.station] == offset+1)
-		{
-			TRACK(("\t\tthread %d is already shunted\n", thread.thread_number));
-			return;
-		}
-		shunted[thread.station] = offset+1;
+		if (thread.station >= evaluated.size())
+			evaluated.resize(thread.station+1, 0);
+		if (evaluated[thread.station] == offset+1)
+			return false;
+		evaluated[thread.station] = offset+1;
+		return true;
 	}
 
-	// Recursion control, prevents stack explosion on empty loops
-	for (const Shunt* shunt = outer; shunt; shunt = shunt->outer)
-		if (shunt->station == thread.station)
-		{
-			TRACK(("\t\tthread %d would recurse\n", thread.thread_number));
-			return;
-		}
-	const Shunt	shunts = { thread.station, outer };
+	if (counted_offset != offset)
+		counted.clear();
+	counted_offset = offset;
+
+	// It only matters whether each counter has advanced, not from where
+	std::vector<StrValIndex> key(1, thread.station);
+	for (int i = 0; i < thread.result.counterNum(); i++)
+		key.push_back(thread.result.counterGet(i)*2 + (thread.result.counterOffset(i) == offset ? 1 : 0));
+	return counted.insert(key).second;
+}
 
+void
+RxMatch::addthread(Thread thread, StrValIndex offset)
+{
 	/*
 	 * If the opcode at the new thread won't consume text, evaluate it either by looping (tail recursion) or a recursive call
 	 */
 	RxDecoded	instr;
 next:
+	if (!evaluate(thread, offset))
+	{
+		TRACK(("\t\tthread %d at %d is a duplicate\n", thread.thread_number, thread.station));
+		return;
+	}
 	program.decode(thread.station, instr);
 	switch (instr.op)
 	{
@@ -356,8 +367,8 @@ next:
 
 	case RxOp::RxoSplit:
 		// REVISIT: For non-greedy repetition, we need these addthread calls in opposite order (same for RxoCount)
-		addthread(Thread(instr.alternate, thread.result), offset, &shunts);
-		addthread(Thread(instr.next, thread.result, &thread), offset, &shunts);
+		addthread(Thread(instr.alternate, thread.result), offset);
+		addthread(Thread(instr.next, thread.result, &thread), offset);
 		break;
 
 	case RxOp::RxoCaptureStart:
@@ -386,7 +397,7 @@ next:
 				depth--;
 		}
 		if (count.repetition.min == 0)
-			addthread(Thread(count.next, thread.result, &thread), offset, &shunts);
+			addthread(Thread(count.next, thread.result, &thread), offset);
 	}
 		thread.result.counterPushZero(offset);
 		thread = Thread(instr.next, thread.result, &thread);
@@ -403,16 +414,16 @@ next:
 		if (previous.offset == offset)
 			TRACK(("\t\tRepetition at shunt %d did not proceed from offset %d\n", thread.station, offset));
 
-		if ((counter <= instr.repetition.max || instr.repetition.max == 0)	// Greedily repeat
-		 && previous.offset <= offset)		// Only if we advanced
-			addthread(Thread(instr.alternate, thread.result), offset, &shunts);
+		if ((counter < instr.repetition.max || instr.repetition.max == 0)	// Greedily repeat
+		 && previous.offset < offset)		// Only if we advanced
+			addthread(Thread(instr.alternate, thread.result), offset);
 
 		if ((counter >= instr.repetition.min || previous.offset == offset)	// Reached minimum count, or will without advancing
 		 && (instr.repetition.max == 0 || counter <= instr.repetition.max))
 		{
 			RxResult	continuation = thread.result;
 			continuation.counterPop();	// The continuing thread has no further need of the counter
-			addthread(Thread(instr.next, continuation, &thread), offset, &shunts);
+			addthread(Thread(instr.next, continuation, &thread), offset);
 		}
 		thread.result.clear();
 	}
@@ -429,7 +440,7 @@ next:
 		{
 			// Not matched, as requested, so continue with the next instruction at the current offset
 			TRACK(("\t\tthread %d negative lookahead failed, so we can continue at offset %d\n", thread.thread_number, offset));
-			addthread(Thread(instr.alternate, thread.result, &thread), offset, &shunts);
+			addthread(Thread(instr.alternate, thread.result, &thread), offset);
 		}
 		else
 			TRACK(("\t\thread %d negative lookahead succeeded, abandon ship\n", thread.thread_number));
@@ -438,31 +449,6 @@ next:
 		break;
 
 	default:
-		// Threads at the same station are duplicates unless their repetition counters differ
-		for (int i = 0; i < next_threads.size(); i++)
-		{
-			if (next_threads[i].station == thread.station)
-			{
-				if (thread.result.countersSame(next_threads[i].result))
-				{
-#ifdef TRACK_RESULTS
-					TRACK(("\t\tthread %d at %d is a duplicate", thread.thread_number, thread.station));
-					if (thread.result.hasCounter()) TRACK((" (count %d)", thread.result.counterTop().count));
-					TRACK((" of thread %d", next_threads[i].thread_number));
-					if (next_threads[i].result.hasCounter())
-					{
-						TRACK((" (counters"));
-						for (int i = 0; i < next_threads[i].result.counterNum(); i++)
-							TRACK((" %d", next_threads[i].result.counterGet(i)));
-						TRACK((")"));
-					}
-					TRACK(("\n"));
-#endif
-					return;		// We already have this thread
-				}
-			}
-		}
-
 #ifdef TRACK_RESULTS
 		TRACK(("\t\t... thread %d at instr %d, offset %d with captures ", thread.thread_number, thread.station, offset));
 		for (int i = 0; i < thread.result.captureMax(); i++)
@@ -492,7 +478,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 
 	// Start where directed, and step forward one character at a time, following all threads until successful or there are no threads left
 	next_threads.clear();
-	addthread(Thread(start, RxResult(program.maxCounter(), program.maxCapture())), offset, (const Shunt*)0);
+	addthread(Thread(start, RxResult(program.maxCounter(), program.maxCapture())), offset);
 	std::swap(current_threads, next_threads);
 	next_threads.clear();
 	for (; current_threads.size() > 0 && offset <= target.length(); offset++)
@@ -645,7 +631,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 
 			case succeeded:			// This instruction succeeded, so continue with the next one
 				TRACK(("succeeds\n"));
-				addthread(Thread(instr.next, thread_p->result, thread_p), offset+1, (const Shunt*)0);
+				addthread(Thread(instr.next, thread_p->result, thread_p), offset+1);
 				break;
 
 			case accepted:			// This thread has matched
@@ -885,6 +871,12 @@ RxResult::counterGet(int i) const	// get the nth top counter
 	return captures ? captures->counterGet(i) : 0;
 }
 
+StrValIndex
+RxResult::counterOffset(int i) const	// get the offset of the nth top counter
+{
+	return captures ? captures->counterOffset(i) : 0;
+}
+
 void
 RxResult::counterPushZero(StrValIndex offset)	// Push a zero counter
 {
diff --git a/rx/strregex.h b/rx/strregex.h
index 6afcc61..56668af 100644
--- a/rx/strregex.h
+++ b/rx/strregex.h
@@ -208,6 +208,7 @@ public:
 	bool		hasCounter() const { return counterNum() > 0; }
 	bool		countersSame(RxResult& other) const;
 	int		counterGet(int = 0) const;		// get the nth top counter
+	StrValIndex	counterOffset(int = 0) const;		// get the offset of the nth top counter
 	void		counterPushZero(StrValIndex offset);	// Push a zero counter at this offset
 	StrValIndex	counterIncr(StrValIndex offset, StrValIndex limit = 0);	// Increment (to any limit) and return top counter of stack
 	void		counterPop();		// Discard the top counter of the stack
-- 
2.43.0


From ae524ed4625b151cfd6095868ecdd1e85bef5d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:19 +0000
Subject: [PATCH 62/87] fix: the offsets of an unlimited repetition must agree
 when they cross a UTF-8 length boundary

---
 rx/rxcompile.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index a8e799e..a832286 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -1067,18 +1067,20 @@ RxCompiler::compile(char*& nfa)
 					 * but zigzag coding means the negative integer is one more than the positive.
 					 * It might therefore take one more byte (at the boundary of UTF8 coding).
 					 */
-					StrValIndex	fwd_bytes = offset_max_bytes, rev_bytes = offset_max_bytes, last_rev;
+					StrValIndex	fwd_bytes = 1, rev_bytes, last_fwd;
 					int		delta;		// offset value for the Split
 					int		rev_delta;	// offset value for the Jump
 					do {
+						// Guess that the Split offset needs fwd_bytes, so it will shrink by the rest
+						StrValIndex	shrinkage = offset_max_bytes-fwd_bytes;
+						last_fwd = fwd_bytes;
+						rev_delta = last_atom_start - (ep-shrinkage);
+						rev_bytes = UTF8Len(zigzag(rev_delta));
 						// last_atom_start+1 is the location of the Split offset
-						// ep+rev_bytes is our guess at its target
-						delta = (ep+rev_bytes) - (last_atom_start+1);	// The forward split offset
+						// ep-shrinkage+rev_bytes is its target
+						delta = (ep-shrinkage+rev_bytes) - (last_atom_start+1);	// The forward split offset
 						fwd_bytes = UTF8Len(zigzag(delta));
-						rev_delta = last_atom_start - (ep-(offset_max_bytes-fwd_bytes));
-						last_rev = rev_bytes;
-						rev_bytes = UTF8Len(zigzag(rev_delta));
-					} while (rev_bytes < last_rev);
+					} while (fwd_bytes > last_fwd);
 
 					patch_offset(last_atom_start+1-nfa, ep+rev_bytes-nfa);
 					emit_offset(ep, rev_delta);
-- 
2.43.0


From 93a8425cc492412bdb9d4d9cb76a73c95c56df0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 63/87] fix: matching a regular expression must not rescan
 non-ASCII text from the start for each character

---
 rx/rxmatch.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index bc5b456..64c60e9 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -86,8 +86,16 @@ public:
 	const RxResult	matchAt(RxStationID start, StrValIndex& offset);
 
 private:
+	// Save a bookmark as we index, so we don't scan the string to find each non-ASCII character
+	struct Target : public StrVal
+	{
+		Target(const StrVal& s) : StrVal(s) {}
+		UCS4		operator[](int charNum)
+				{ nthChar(charNum); return StrVal::operator[](charNum); }
+	};
+
 	const RxProgram& program;		// The NFA to execute
-	StrVal		target;			// The string we are searching
+	Target		target;			// The string we are searching
 	RxResult	result;			// Result from the successful thread
 
 	// Concurrent threads of execution:
-- 
2.43.0


From 1f4db054a8607dd232f87ff013a48adf86ae16d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:28 +0000
Subject: [PATCH 64/87] fix: StrVal transformations must count characters that
 combine from illegal UTF-8 pieces

---
 include/strval.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/strval.h b/include/strval.h
index 80a36dc..c778f73 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -969,6 +969,10 @@ void StrBodyI<Index>::transform(const std::function<Val(const char*& cp, const c
 	// Append the \0 to the array:
 	ArrayBody<char, Index>::insert(num_elements, "", 1);
 	delete [] old_start;
+
+	// Illegal UTF-8 in adjacent pieces might have combined, so the character counts don't just add up
+	num_chars = 0;
+	countChars();
 }
 
 template<typename Index>
-- 
2.43.0


From d710916cbe0e12f58eb0f4bebc3440c192aef285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:38 +0000
Subject: [PATCH 65/87] fix: StrVal must not stop counting at a character
 encoded as 0xFFFFFFFF

---
 include/strval.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index c778f73..b7a3103 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -262,9 +262,8 @@ protected:
 				char*		ep = start+num_elements-1;	// Marker for end of data
 				while (cp < ep)
 				{
-					UCS4		ch = UTF8Get(cp);
-					if (ch == UCS4_NONE		// Illegal encoding not handled by UTF8_ILLEGAL
-					 || cp > ep)			// Overlaps the end of data
+					(void)UTF8Get(cp);
+					if (cp > ep)			// Overlaps the end of data
 						break;			// An error occurred before the end of the data; truncate it.
 					// Count illegal UTF-8 characters here
 					num_chars++;
-- 
2.43.0


From 5122a1b301567d470b30b400bd8808317ed49522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:16 +0000
Subject: [PATCH 66/87] fix: StringArray must not index an array of StrVal as
 if it held StrRef

---
 include/strval.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index b7a3103..286a7db 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1219,8 +1219,10 @@ public:
 	StringArray() {}
 	StringArray(const Base& a1) : Base(a1) {}
 	StringArray(const StrVal* data, Index size, Index allocate = 0)
-	: Array(data, size, allocate)
-	{
+	: Array((const StrRef*)0, 0, allocate < size ? size : allocate)
+	{	// A StrVal is bigger than the StrRef we store, so we can't index this data as an array of StrRef
+		for (Index i = 0; i < size; i++)
+			append(data[i]);
 	}
 
 	// Construct from an Array of const char*
-- 
2.43.0


From 38a92d29219efdb0add1dfd0d6dc951adf9ae894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:38 +0000
Subject: [PATCH 67/87] fix: UCS4ToTitle() must leave a title-case letter
 unchanged

---
 src/case_conversions.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/case_conversions.c b/src/case_conversions.c
index 6a434bc..a3e9101 100644
--- a/src/case_conversions.c
+++ b/src/case_conversions.c
@@ -834,12 +834,16 @@ static struct
 } UnicodeToTitle[] =
 {
       {	0x01C4,	1 },
+      {	0x01C5,	0 },
       {	0x01C6,	-1 },
       {	0x01C7,	1 },
+      {	0x01C8,	0 },
       {	0x01C9,	-1 },
       {	0x01CA,	1 },
+      {	0x01CB,	0 },
       {	0x01CC,	-1 },
       {	0x01F1,	1 },
+      {	0x01F2,	0 },
       {	0x01F3,	-1 }
 };
 #define	UCS4NumTitleChars (sizeof(UnicodeToTitle)/sizeof(UnicodeToTitle[0]))
-- 
2.43.0


From 02eecad7053d3de897ebc4a1a1023c0646d70d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 68/87] fix: NulGuardedUTF8Ptr is at_eof() only at a NUL byte

at_eof() and ++ compared the decoded character, so they stopped at an
overlong zero (C0 80), which is a character of the text that += and the
StrVal it points into count and move past.
---
 include/utf8_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utf8_ptr.h b/include/utf8_ptr.h
index f2d345e..b415ef9 100644
--- a/include/utf8_ptr.h
+++ b/include/utf8_ptr.h
@@ -23,7 +23,7 @@ public:
 			{ data = s.data; return *this; }
 
 	bool		at_eof()
-			{ return this->operator*() == '\0'; }
+			{ return *data == '\0'; }	// Not an overlong encoding of NUL
 
 	UCS4		operator*()		// Dereference to char under the pointer
 			{ const UTF8* s = data; return UTF8Get(s); }
-- 
2.43.0


From 74e22f5a97c17172f5b8fdd9ad8c120c8ae3a2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:18 +0000
Subject: [PATCH 69/87] fix: deleting a joined Thread must not forget the
 thread that re-used its id

After joinAny() or join() the system may give the thread id to a new
thread. ~Thread() looked up its old id and erased the new thread's entry,
so joinAny() never returned that one.
---
 include/thread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thread.h b/include/thread.h
index 6f1b9b0..db63294 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -198,7 +198,7 @@ void
 Thread::remove_ended()
 {
 	thread_latch.enter();
-	if (Thread::find(thread_id))
+	if (Thread::find(thread_id) == this)	// Not a newer thread that has re-used the id
 	{
 		if (state == Ended)
 			ended_count--;
-- 
2.43.0


From d0bcd357c0241b2762622c0e69e015cdccc33deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 70/87] fix: an escaped control character may start a range in
 a Pegexp character class

---
 include/pegexp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 6281ce2..d86c4fb 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -493,9 +493,9 @@ protected:
 		{
 			Char	c1;
 
-			// Handle actual properties, not other escapes
+			// Handle actual properties, not other escapes (which may start a range)
 			char	esc = state.pattern[1];
-			if (*state.pattern == '\\' && isalpha(esc) && esc != 'x' && esc != 'u')
+			if (*state.pattern == '\\' && esc != '\0' && strchr("adhLUsw", esc) != 0)
 			{
 				state.pattern++;
 				if (char_property(state.pattern, ch))
-- 
2.43.0


From 26813b1aae3ba28325a1f3b011bf3a331fc17d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 71/87] fix: a character class that fails at the end of the
 input is reported whole, not just its first byte

---
 include/pegexp.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index d86c4fb..a1da16c 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -477,9 +477,6 @@ protected:
 
 	bool		char_class(State& state)
 	{
-		if (state.source.at_eof())		// End of input never matches a char_class
-			return false;
-
 		State	start_state(state);
 		start_state.pattern--;
 
@@ -488,7 +485,8 @@ protected:
 			state.pattern++;
 
 		bool	in_class = false;
-		Char	ch = state.source.get_char();
+		bool	at_eof = state.source.at_eof();
+		Char	ch = at_eof ? 0 : state.source.get_char();
 		while (*state.pattern != '\0' && *state.pattern != ']')
 		{
 			Char	c1;
@@ -518,7 +516,7 @@ protected:
 			state.pattern++;
 		if (negated)
 			in_class = !in_class;
-		return in_class;
+		return in_class && !at_eof;		// End of input never matches a char_class
 	}
 
 	// Null extension; treat extensions like literal characters
-- 
2.43.0


From fa9b4d0d9f455795f737403d09facf10dafac7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 72/87] fix: a \\u escape in a Pegexp of bytes must not shift a
 negative value

---
 include/pegexp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index a1da16c..a405bbf 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -441,7 +441,7 @@ protected:
 				int	digit = unhex(*pattern);
 				if (digit < 0)
 					break;
-				rc = (rc<<4) | digit;
+				rc = ((UCS4)rc<<4) | digit;
 				pattern++;
 			}
 			if (braces && *pattern == '}')
-- 
2.43.0


From abc501e96abc1d54e7971db8aa4dc99d79b1ce48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 73/87] fix: a truncated Pegexp that ends in a prefix operator
 must not be skipped past its end

---
 include/pegexp.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pegexp.h b/include/pegexp.h
index a405bbf..2c674f9 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -763,6 +763,9 @@ protected:
 	{
 		switch (char rc = *pattern++)
 		{
+		case '\0':	// A prefix operator with nothing after it
+			return --pattern;
+
 		case '\\':	// Escaped literal char
 			pattern--;
 			(void)literal_char(pattern);
-- 
2.43.0


From 8e2e7f3fecaad0df6d2175efe17bdbcc0ac8b8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 74/87] fix: format() skips the * of a size or precision taken
 from the arguments

---
 include/strformat.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/strformat.h b/include/strformat.h
index fb8bde5..44580ad 100644
--- a/include/strformat.h
+++ b/include/strformat.h
@@ -33,7 +33,10 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 		size = 0;
 		leading_zeroes = false;
 		if (c == '*')
+		{
 			size = -1;
+			c = f[++i];	// Skip the *
+		}
 		else if ((d = Digit(c, 10)) >= 0)
 		{
 			if (d == 0)
@@ -49,7 +52,10 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 		{
 			c = f[++i];
 			if (c == '*')
+			{
 				prec = -1;
+				c = f[++i];	// Skip the *
+			}
 			else if ((d = Digit(c, 10)) >= 0)
 			{
 				prec = d;
-- 
2.43.0


From f95e52cab40c8660a6ed2ca86cf31447bb25117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 75/87] fix: format() uses the argument that a parameter number
 selects

---
 include/strformat.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/strformat.h b/include/strformat.h
index 44580ad..2fff621 100644
--- a/include/strformat.h
+++ b/include/strformat.h
@@ -22,11 +22,12 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 		}
 		c = f[++i];	// Skip the %
 
+		numbered_arg = 0;
 		if (i+2 < m && (d = Digit(c, 10)) > 0 && f[i+1] == '$')
 		{		// Extract the argument sequence digit
 			numbered_arg = d;
 			i += 2;
-			c = f[++i];	// Skip ASD
+			c = f[i];	// Skip ASD
 		}
 
 		// Get the size
@@ -74,14 +75,14 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 		{
 		case 's':
 			// REVISIT: Handle size and prec
-			result += args[a++].as_strval();
+			result += args[numbered_arg ? numbered_arg-1 : a++].as_strval();
 			break;
 
 		case 'd':
 		case 'f':
 		case 'g':
 			// REVISIT: Handle size and prec
-			result += args[a++].as_json();
+			result += args[numbered_arg ? numbered_arg-1 : a++].as_json();
 			break;
 
 		default:
-- 
2.43.0


From 2f863b0e57c1d4cf9e45b320d975a4ff2213cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 76/87] fix: format() gives a % for %%, as in printf

---
 include/strformat.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/strformat.h b/include/strformat.h
index 2fff621..c91ead4 100644
--- a/include/strformat.h
+++ b/include/strformat.h
@@ -73,6 +73,10 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 		// Get the conversion character
 		switch (c)
 		{
+		case '%':
+			result += c;	// A literal %
+			break;
+
 		case 's':
 			// REVISIT: Handle size and prec
 			result += args[numbered_arg ? numbered_arg-1 : a++].as_strval();
-- 
2.43.0


From 89dd7f4e6642e9679a74e48cf3ca92ace31d69c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:21 +0000
Subject: [PATCH 77/87] fix: ? is an ordinary character when ZeroOrOneQuest is
 disabled, and refused when it is rejected

---
 rx/rxcompile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index a832286..bb4e1be 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -139,6 +139,8 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			break;
 
 		case '?':
+			if (!enabled(RxFeature::AnyIsQuest) && !supported(RxFeature::ZeroOrOneQuest))
+				goto simple_char;
 			if (!(ok = flush())) break;
 			if (enabled(RxFeature::AnyIsQuest))
 				ok = func(RxToken(RxOp::RxoAny));	// Shell-style any-char wildcard
-- 
2.43.0


From fa72369208c26550dc1496aef5f18d52d1a09394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:21 +0000
Subject: [PATCH 78/87] fix: Using a rejected kind of escape in a regular
 expression is an error

---
 rx/rxcompile.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index bb4e1be..723ab95 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -207,16 +207,16 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		case '\\':		// Escape sequence
 			switch (ch = re[++i])
 			{
-			case 'b': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\b'; goto escaped_char;
-			case 'e': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\033'; goto escaped_char;
-			case 'f': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\f'; goto escaped_char;
-			case 'n': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\n'; goto escaped_char;
-			case 't': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\t'; goto escaped_char;
-			case 'r': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\r'; goto escaped_char;
+			case 'b': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\b'; goto escaped_char;
+			case 'e': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\033'; goto escaped_char;
+			case 'f': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\f'; goto escaped_char;
+			case 'n': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\n'; goto escaped_char;
+			case 't': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\t'; goto escaped_char;
+			case 'r': if (!supported(RxFeature::CEscapes)) goto simple_escape; ch = '\r'; goto escaped_char;
 
 			case '0': case '1': case '2': case '3':	// Octal char constant
 			case '4': case '5': case '6': case '7':
-				if (!enabled(RxFeature::OctalChar))
+				if (!supported(RxFeature::OctalChar))
 					goto simple_escape;
 				param = re.substr(i, 3);
 				ch = param.asInt32(&int_error, 8, &scanned);
@@ -229,7 +229,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				goto escaped_char;
 
 			case 'x':			// Hex byte (1 or 2 hex digits follow)
-				if (!enabled(RxFeature::HexChar))
+				if (!supported(RxFeature::HexChar))
 					goto simple_escape;
 				// REVISIT: Support \x{XX}?
 				param = re.substr(++i, 2);
@@ -243,7 +243,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				goto escaped_char;
 
 			case 'u':			// Unicode (1-5 hex digits follow)
-				if (!enabled(RxFeature::UnicodeChar))
+				if (!supported(RxFeature::UnicodeChar))
 					goto simple_escape;
 				// REVISIT: Support \u{XX}?
 				param = re.substr(++i, 5);
@@ -260,7 +260,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			case 's':			// Whitespace
 			case 'd':			// Digit
 			case 'h':			// Hexdigit
-				if (!enabled(RxFeature::Shorthand))
+				if (!supported(RxFeature::Shorthand))
 					goto simple_escape;
 				if (!(ok = flush())) break;
 				// REVISIT: Also support \w, etc
@@ -268,7 +268,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				break;
 
 			case 'p':			// Posix character type
-				if (!enabled(RxFeature::PropertyChars))
+				if (!supported(RxFeature::PropertyChars))
 					goto simple_escape;
 				if (!(ok = flush())) break;
 				if (re[++i] != '{')
-- 
2.43.0


From ed35e9b7a2e7bc0fdcdcc21c52c513d7116b5f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:21 +0000
Subject: [PATCH 79/87] fix: In an extended regular expression, a repetition
 after white space applies to one character

---
 rx/rxcompile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 723ab95..8ce2195 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -291,6 +291,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		delay_escaped:
 				switch (re[i+1])	// Can't delay if this escape is repeated or optional
 				{	// Note this is conservative; these repetitions might not be enabled
+				case ' ': case '\t': case '\n': case '\r':	// The repetition might follow white space
 				case '*': case '+': case '?': case '{':
 					if (!(ok = flush())) break;	// So flush it first
 				}
@@ -424,6 +425,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		simple_char:
 			switch (re[i+1])	// Can't delay if this escape is repeated or optional
 			{	// Note this is conservative; these repetitions might not be enabled
+			case ' ': case '\t': case '\n': case '\r':	// The repetition might follow white space
 			case '*': case '+': case '?': case '{':
 				if (!(ok = flush())) break;	// So flush it first
 			}
-- 
2.43.0


From af61b053cc3c814336dfae9c75fbeacf988e4a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:58 +0000
Subject: [PATCH 80/87] fix: Thread::exit() must link, and end the thread

---
 include/thread.h | 2 +-
 src/thread.cpp   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/thread.h b/include/thread.h
index db63294..aa09298 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -49,7 +49,7 @@ public:
 	static	inline ThreadId		currentId();	// current thread id, fast
 	static	inline ProcessId	currentProcessId();
 	static	inline Thread*		current();	// current thread, slower
-	inline void			exit(int);	// exit the current thread
+	void			exit(int);	// exit the current thread
 	static	inline Thread*		main();		// main thread. REVISIT: needed?
 
 	// REVISIT: Iterate over all live threads
diff --git a/src/thread.cpp b/src/thread.cpp
index 11876e6..2e24a04 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -73,6 +73,7 @@ void Thread::exit(int code)
 	thread_latch.leave();
 
 #if	defined(HAVE_PTHREADS)
+	pthread_exit((void*)(long)code);
 #elif	defined(MSW)
 	ExitThread(code);
 #endif
-- 
2.43.0


From 026af39c4fde302b623ffc55b2b5d3120bdd39c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:08 +0000
Subject: [PATCH 81/87] fix: the first Latches may be made by several threads
 at once

---
 include/lockfree.h | 16 +++++++++-------
 src/lockfree.cpp   |  1 -
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/lockfree.h b/include/lockfree.h
index 0c92b7f..f52c3e7 100644
--- a/include/lockfree.h
+++ b/include/lockfree.h
@@ -39,7 +39,6 @@ public:
 	// The PTHREADs implementation allows us to use these with pthread condition variables
 	pthread_mutex_t	mutex;
 
-	static	std::atomic<bool>	initialised;
 	static	pthread_mutexattr_t	attr;
 
 #else
@@ -60,12 +59,15 @@ public:
 #if	defined(HAVE_PTHREADS)
 Latch::Latch()
 {
-	if (!initialised)
-	{
-		initialised = true;
-		pthread_mutexattr_init(&Latch::attr);
-		pthread_mutexattr_settype(&Latch::attr, PTHREAD_MUTEX_ERRORCHECK);
-	}
+	// The first Latches might be made by several threads at once. They must all wait until attr has been initialised.
+	static	const bool	initialised =
+		[]() -> bool
+		{
+			pthread_mutexattr_init(&Latch::attr);
+			pthread_mutexattr_settype(&Latch::attr, PTHREAD_MUTEX_ERRORCHECK);
+			return true;
+		}();
+	(void)initialised;
 
 	pthread_mutex_init(&mutex, &attr);
 }
diff --git a/src/lockfree.cpp b/src/lockfree.cpp
index 3badcf0..eda17e2 100644
--- a/src/lockfree.cpp
+++ b/src/lockfree.cpp
@@ -8,7 +8,6 @@
 
 #if	defined(HAVE_PTHREADS)
 pthread_mutexattr_t	Latch::attr;
-std::atomic<bool>	Latch::initialised;
 #else
 
 int			Latch::num_cores;
-- 
2.43.0


From fa938b1b1e5e5b254d319ae5473d3d536ba3c63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:52 +0000
Subject: [PATCH 82/87] fix: characters of StrRawBinary strings are unsigned
 bytes

---
 include/strval.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 286a7db..cf7ede3 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -273,7 +273,7 @@ protected:
 	UCS4		getChar(const char*& cp) const	// Return next character, next advancing cp
 			{
 				if (isRawBinary())
-					return *cp++;
+					return (unsigned char)*cp++;
 				return UTF8Get(cp);
 			}
 
@@ -434,7 +434,7 @@ public:
 				const char*	cp = nthChar(charNum);
 				if (!cp)
 					return UCS4_NONE;
-				return body->isRawBinary() ? *cp : UTF8Get(cp);
+				return body->isRawBinary() ? (unsigned char)*cp : UTF8Get(cp);
 			}
 	const char*	asUTF8()	// Null terminated. Must unshare data if it's a substring with elided suffix
 			{
@@ -808,7 +808,7 @@ private:
 	UCS4		getChar(const char*& cp) const
 			{
 				if (body->isRawBinary())
-					return *cp++;
+					return (unsigned char)*cp++;
 				return UTF8Get(cp);
 			}
 	void		copyBody()
-- 
2.43.0


From d71fb76d6dedf0cbd5ffb0d2eeafa9f1e3e8fd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:00 +0000
Subject: [PATCH 83/87] fix: captures of an abandoned alternative must be
 rolled back partway too

---
 include/peg_ast.h | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/include/peg_ast.h b/include/peg_ast.h
index fda2a16..b8e9fff 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -11,6 +11,7 @@
 #include	<utf8_ptr.h>
 
 #include	<cstdio>
+#include	<vector>
 
 using	PegMemorySourceSup = PegexpPointerSource<GuardedUTF8Ptr>;
 
@@ -149,6 +150,7 @@ public:
 		StrVal		key(name, name_len);
 		Variant		value(r.var);
 		Variant		existing;
+		Variant::VariantType previous = Variant::None;	// What we had under this name
 
 		if (value.type() == Variant::String && value.as_strval().length() == 0)
 			return num_captures;
@@ -158,6 +160,7 @@ public:
 		if (ast.contains(key))
 		{		// There are previous captures under this name
 			existing = ast[key];
+			previous = existing.type();
 			if (existing.type() != Variant::VarArray)
 				existing = Variant(&existing, 1);	// Convert it to an array
 			VariantArray va = existing.as_variant_array();
@@ -168,6 +171,7 @@ public:
 		else	// Insert the match as the first element in an array, or just as itself:
 			ast.insert(key, in_repetition ? Variant(&value, 1) : value);
 
+		captured.push_back({key, previous});
 		num_captures++;
 		return 0;
 	}
@@ -177,18 +181,33 @@ public:
 		return num_captures;
 	}
 
-	// The grammar should not capture anything that rolls back except to zero, unless on failure:
 	void		rollback_capture(int count)
 	{
 		if (count >= num_captures)
 			return;
 		if (count == 0)
-		{		// We can rollback to zero, but not partway
+		{		// Rolling back to zero is quick
 			ast.clear();
 			num_captures = 0;
+			captured.clear();
 			return;
 		}
-		printf("REVISIT: Not rolling back to %d from %d\n", count, num_captures);
+		while (num_captures > count)
+		{		// Undo the last capture
+			Captured	last = captured.back();
+			captured.pop_back();
+			num_captures--;
+			if (last.previous == Variant::None)
+			{		// It was the first under this name
+				ast.remove(last.key);
+				continue;
+			}
+			VariantArray va = ast[last.key].as_variant_array();
+			if (last.previous == Variant::VarArray)
+				ast.put(last.key, va.shorter(1));	// It was added to this array
+			else
+				ast.put(last.key, va[0]);	// It made this array from the previous value
+		}
 	}
 
 	void		record_failure(PatternP op, PatternP op_end, Source location)
@@ -264,8 +283,15 @@ public:
 	int		capture_disabled;	// Counter that bumps up from zero to disable captures
 
 protected:
+	struct Captured
+	{
+		StrVal		key;
+		Variant::VariantType previous;	// Type of the value this capture added to, or None
+	};
+
 	int		num_captures;
 	StrVariantMap	ast;
+	std::vector<Captured> captured;	// The captures in order, so we can roll back
 
 	// The next two are populated only on the outermost Context, to be returned from the parse
 	Source		furthermost_success;	// Source location of the farthest location the parser reached
-- 
2.43.0


From 09a25b5e4d455f2faca8a6226d31e261c50217aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:14 +0000
Subject: [PATCH 84/87] fix: CowMap functional methods must survive mutation of
 the map by the function they call

---
 include/cowmap.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/cowmap.h b/include/cowmap.h
index 0d665b4..230fca5 100644
--- a/include/cowmap.h
+++ b/include/cowmap.h
@@ -81,7 +81,8 @@ public:
 				return key;
 			}
 
-	// Functional methods (these don't mutate or Unshare the subject):
+	// Functional methods (these don't mutate or Unshare the subject).
+	// Each iterates a copy, so if the function passed in mutates this map, that affects only a fresh Body:
 	Array<Key>	keys() const
 			{
 				Array<K>	all_keys((Key*)0, 0, size());
@@ -99,27 +100,31 @@ public:
 
 	void		each(std::function<void(const Key& k, const Value& v)> operation) const
 			{
-				for (Iter it = begin(); it != end(); it++)
+				const CowMap	subject(*this);
+				for (Iter it = subject.begin(); it != subject.end(); it++)
 					operation(it->first, it->second);
 			}
 	bool		all(std::function<bool(const Key& k, const Value& v)> condition) const	// Do all elements satisfy the condition?
 			{
-				for (Iter it = begin(); it != end(); it++)
+				const CowMap	subject(*this);
+				for (Iter it = subject.begin(); it != subject.end(); it++)
 					if (!condition(it->first, it->second))
 						return false;
 				return true;
 			}
 	bool		any(std::function<bool(const Key& k, const Value& v)> condition) const	// Does any element satisfy the condition?
 			{
-				for (Iter it = begin(); it != end(); it++)
+				const CowMap	subject(*this);
+				for (Iter it = subject.begin(); it != subject.end(); it++)
 					if (condition(it->first, it->second))
 						return true;
 				return false;
 			}
 	bool		one(std::function<bool(const Key& k, const Value& v)> condition) const	// Exactly one element satisfies the condition
 			{
+				const CowMap	subject(*this);
 				bool		found = false;
-				for (Iter it = begin(); it != end(); it++)
+				for (Iter it = subject.begin(); it != subject.end(); it++)
 					if (condition(it->first, it->second))
 					{
 						if (found)
@@ -131,9 +136,10 @@ public:
 
 	CowMap		select(std::function<bool(const Key& k, const Value& v)> condition) const
 			{
+				const CowMap	subject(*this);
 				CowMap	selected;
 
-				for (Iter it = begin(); it != end(); it++)
+				for (Iter it = subject.begin(); it != subject.end(); it++)
 					if (condition(it->first, it->second))
 						selected.put(it->first, it->second);
 				return selected;
@@ -141,8 +147,9 @@ public:
 	template<typename V2 = V, typename K2 = K>
 	CowMap<V2, K2>	map(std::function<std::pair<K2, V2>(const Key& k, const Value& v)> map1) const
 			{
+				const CowMap	subject(*this);
 				CowMap<V2, K2>	output;
-				for (Iter it = begin(); it != end(); it++)
+				for (Iter it = subject.begin(); it != subject.end(); it++)
 				{
 					std::pair<K2, V2>	entry = map1(it->first, it->second);
 					output.put(entry.first, entry.second);
@@ -152,8 +159,9 @@ public:
 	template<typename J>
 	J		inject(const J& start, std::function<J(J&, const Key& k, const Value& v)> injection) const
 			{
+				const CowMap	subject(*this);
 				J	accumulator = start;
-				for (Iter it = begin(); it != end(); it++)
+				for (Iter it = subject.begin(); it != subject.end(); it++)
 					accumulator = injection(accumulator, it->first, it->second);
 				return accumulator;
 			}
-- 
2.43.0


From 9fccc65a626ed72873c2138c7c0278939e28a139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:36 +0000
Subject: [PATCH 85/87] fix: a compiled regular expression must not contain a
 NUL, as it is a C string

---
 rx/rxcompile.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 8ce2195..0d66254 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -574,6 +574,9 @@ RxCompiler::compile(char*& nfa)
 				is_atom = true;
 				bytes_required += instr.str.length();	// One RxoChar for each char
 				bytes_required += instr.str.numBytes();	// and the data
+				for (int i = 0; i < instr.str.length(); i++)
+					if (instr.str[i] == 0)
+						bytes_required++;	// A NUL character is stored in two bytes
 				// REVISIT: This is pessimistic. A string has one station plus the number of times its prefix re-occurs
 				station_count += instr.str.numBytes();
 				break;
@@ -959,7 +962,10 @@ RxCompiler::compile(char*& nfa)
 				for (int i = 0; i < instr.str.length(); i++)
 				{		// Emit each character one at a time
 					*ep++ = (char)RxOp::RxoChar;
-					UTF8Put(ep, instr.str[i]);
+					if (instr.str[i] == 0)
+						UTF8PutPaddedZero(ep, 2);	// The NFA is NUL-terminated, so it must not contain one
+					else
+						UTF8Put(ep, instr.str[i]);
 				}
 				break;
 
-- 
2.43.0


From 9b8f66e751326e2232d0ccfa7712b1ac49e0339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:35 +0000
Subject: [PATCH 86/87] fix: a short character escape in a regular expression
 must not swallow the white space or sign beside it

---
 rx/rxcompile.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 0d66254..54af529 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -54,6 +54,19 @@ public:
 	RxToken(RxOp _op, int min, int max) : op(_op) { repetition.min = min; repetition.max = max; }
 };
 
+// Return just the digits (at most max of them) of a character escape. asInt32 also allows white space and a sign
+static StrVal
+escapeDigits(StrVal re, int at, int max, int radix)
+{
+	int		num_digits = 0;
+	int		d;
+	while (num_digits < max
+	 && (d = UCS4HexDigit(re[at+num_digits])) >= 0
+	 && d < radix)
+		num_digits++;
+	return re.substr(at, num_digits);
+}
+
 RxCompiler::RxCompiler(StrVal _re, RxFeature features, RxFeature reject_features)
 : re(_re)
 , features_enabled((RxFeature)((int32_t)features & ~(int32_t)reject_features))
@@ -218,7 +231,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			case '4': case '5': case '6': case '7':
 				if (!supported(RxFeature::OctalChar))
 					goto simple_escape;
-				param = re.substr(i, 3);
+				param = escapeDigits(re, i, 3, 8);
 				ch = param.asInt32(&int_error, 8, &scanned);
 				if ((int_error && int_error != STRERR_TRAIL_TEXT) || scanned == 0)
 				{
@@ -232,7 +245,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				if (!supported(RxFeature::HexChar))
 					goto simple_escape;
 				// REVISIT: Support \x{XX}?
-				param = re.substr(++i, 2);
+				param = escapeDigits(re, ++i, 2, 16);
 				ch = param.asInt32(&int_error, 16, &scanned);
 				if ((int_error && int_error != STRERR_TRAIL_TEXT) || scanned == 0)
 				{
@@ -246,7 +259,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				if (!supported(RxFeature::UnicodeChar))
 					goto simple_escape;
 				// REVISIT: Support \u{XX}?
-				param = re.substr(++i, 5);
+				param = escapeDigits(re, ++i, 5, 16);
 				ch = param.asInt32(&int_error, 16, &scanned);
 				if ((int_error && int_error != STRERR_TRAIL_TEXT) || scanned == 0)
 				{
-- 
2.43.0


From 2f96623b08b1f9b08a0980ceab6e2cb3caba522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:09 +0000
Subject: [PATCH 87/87] fix: a regular expression must match text beyond a NUL
 character

---
 rx/rxmatch.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 64c60e9..d6d9063 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -497,6 +497,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 			RxStationID	pc = thread_p->station;
 			program.decode(pc, instr);
 			UCS4		ch = target[offset];
+			bool		at_end = offset >= target.length();	// The target may contain NUL characters
 			enum {
 				failed,
 				eof,
@@ -521,7 +522,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 			case RxOp::RxoAny:			// Any single char
 				// As long as we aren't at the end, all is good
 				// REVISIT: Add except-newline mode behaviour
-				if (ch != 0)
+				if (!at_end)
 					break;
 				step_status = eof;
 				break;
@@ -536,7 +537,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 			case RxOp::RxoCharClass:		// Character class
 			case RxOp::RxoNegCharClass:		// Negated Character class
 			{
-				if (ch == 0)
+				if (at_end)
 				{
 					step_status = eof;
 					break;
@@ -562,7 +563,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 
 			case RxOp::RxoCharProperty:		// A character with a named Unicode property
 			{
-				if (ch == 0)
+				if (at_end)
 				{
 					step_status = eof;
 					break;
-- 
2.43.0

