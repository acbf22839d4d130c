From 1e085ed7225afd2ab8f6344ff2aeaba4b282d2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 01/17] fix: bound the length prefixes of encoded compound
 regions by the input size

---
 src/CompoundRegion.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/CompoundRegion.cc b/src/CompoundRegion.cc
index cae1d51..f3c303c 100644
--- a/src/CompoundRegion.cc
+++ b/src/CompoundRegion.cc
@@ -50,7 +50,7 @@ namespace {
 // A version of decodeU64 from codec.h that checks for buffer overruns and
 // increments the buffer pointer it is given.
 std::uint64_t consumeDecodeU64(std::uint8_t const *&buffer, std::uint8_t const *end) {
-    if (buffer + 8 > end) {
+    if (end - buffer < 8) {
         throw std::runtime_error("Encoded CompoundRegion is truncated.");
     }
     std::uint64_t result = decodeU64(buffer);
@@ -58,6 +58,18 @@ std::uint64_t consumeDecodeU64(std::uint8_t const *&buffer, std::uint8_t const *
     return result;
 }
 
+// Decode a length-prefixed operand, checking that it lies entirely within the
+// encoded byte string, and increment the buffer pointer past it.
+std::unique_ptr<Region> consumeDecodeOperand(std::uint8_t const *&buffer, std::uint8_t const *end) {
+    std::uint64_t nBytes = consumeDecodeU64(buffer, end);
+    if (nBytes > static_cast<std::uint64_t>(end - buffer)) {
+        throw std::runtime_error("Encoded CompoundRegion is truncated.");
+    }
+    std::unique_ptr<Region> result = Region::decode(buffer, nBytes);
+    buffer += nBytes;
+    return result;
+}
+
 template <typename F>
 auto getUnionBounds(UnionRegion const &compound, F func) {
     auto bounds = func(compound.getOperand(0));
@@ -112,12 +124,8 @@ std::array<std::unique_ptr<Region>, 2> CompoundRegion::_decode(
     }
     ++buffer;
     std::array<std::unique_ptr<Region>, 2> result;
-    std::uint64_t nBytes1 = consumeDecodeU64(buffer, end);
-    result[0] = Region::decode(buffer, nBytes1);
-    buffer += nBytes1;
-    std::uint64_t nBytes2 = consumeDecodeU64(buffer, end);
-    result[1] = Region::decode(buffer, nBytes2);
-    buffer += nBytes2;
+    result[0] = consumeDecodeOperand(buffer, end);
+    result[1] = consumeDecodeOperand(buffer, end);
     if (buffer != end) {
         throw std::runtime_error("Encoded CompoundRegion is has unexpected additional bytes.");
     }
-- 
2.43.0


From 00a7dfd9c374016ff90329597c4cbe1ee66f7ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 02/17] fix: write integers, not their double representation,
 in the portable encodeU64

---
 include/lsst/sphgeom/codec.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/lsst/sphgeom/codec.h b/include/lsst/sphgeom/codec.h
index dea0c62..e0c2e4e 100644
--- a/include/lsst/sphgeom/codec.h
+++ b/include/lsst/sphgeom/codec.h
@@ -98,16 +98,14 @@ inline void encodeU64(std::uint64_t item, std::vector<std::uint8_t> & buffer) {
     auto ptr = reinterpret_cast<std::uint8_t const *>(&item);
     buffer.insert(buffer.end(), ptr, ptr + 8);
 #else
-    union { std::uint64_t u; double d; };
-    d = item;
-    buffer.push_back(static_cast<std::uint8_t>(u));
-    buffer.push_back(static_cast<std::uint8_t>(u >> 8));
-    buffer.push_back(static_cast<std::uint8_t>(u >> 16));
-    buffer.push_back(static_cast<std::uint8_t>(u >> 24));
-    buffer.push_back(static_cast<std::uint8_t>(u >> 32));
-    buffer.push_back(static_cast<std::uint8_t>(u >> 40));
-    buffer.push_back(static_cast<std::uint8_t>(u >> 48));
-    buffer.push_back(static_cast<std::uint8_t>(u >> 56));
+    buffer.push_back(static_cast<std::uint8_t>(item));
+    buffer.push_back(static_cast<std::uint8_t>(item >> 8));
+    buffer.push_back(static_cast<std::uint8_t>(item >> 16));
+    buffer.push_back(static_cast<std::uint8_t>(item >> 24));
+    buffer.push_back(static_cast<std::uint8_t>(item >> 32));
+    buffer.push_back(static_cast<std::uint8_t>(item >> 40));
+    buffer.push_back(static_cast<std::uint8_t>(item >> 48));
+    buffer.push_back(static_cast<std::uint8_t>(item >> 56));
 #endif
 }
 
-- 
2.43.0


From e7ddec00a70f97118e094e3f95b53713259688a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 03/17] fix: keep the bounding circle of an ellipse alive while
 finding pixels

---
 src/PixelFinder.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index 718d184..23040e3 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -161,8 +161,10 @@ RangeSet findPixels(Region const & r, size_t maxRanges, int level) {
         Finder<Circle, InteriorOnly> find(s, *circle, level, maxRanges);
         find();
     } else if (auto ellipse = dynamic_cast<Ellipse const *>(&r)) {
-        Finder<Circle, InteriorOnly> find(
-            s, ellipse->getBoundingCircle(), level, maxRanges);
+        // The finder keeps a pointer to the region it is given, so the bounding
+        // circle must outlive it.
+        Circle const boundingCircle = ellipse->getBoundingCircle();
+        Finder<Circle, InteriorOnly> find(s, boundingCircle, level, maxRanges);
         find();
     } else if (auto box = dynamic_cast<Box const *>(&r)) {
         Finder<Box, InteriorOnly> find(s, *box, level, maxRanges);
-- 
2.43.0


From 4af1cc8193c8aa0acc278e2684271189000a620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 04/17] fix: move range iterators backwards when subtracting an
 offset

---
 include/lsst/sphgeom/RangeSet.h | 2 +-
 src/RangeSet.cc                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lsst/sphgeom/RangeSet.h b/include/lsst/sphgeom/RangeSet.h
index e0e7ac4..ea173bc 100644
--- a/include/lsst/sphgeom/RangeSet.h
+++ b/include/lsst/sphgeom/RangeSet.h
@@ -149,7 +149,7 @@ public:
         Iterator operator--(int) { Iterator i(*this); p -= 2; return i; }
 
         Iterator operator+(ptrdiff_t n) const { return Iterator(p + 2 * n); }
-        Iterator operator-(ptrdiff_t n) const { return Iterator(p + 2 * n); }
+        Iterator operator-(ptrdiff_t n) const { return Iterator(p - 2 * n); }
 
         Iterator & operator+=(ptrdiff_t n) { p += 2 * n; return *this; }
         Iterator & operator-=(ptrdiff_t n) { p -= 2 * n; return *this; }
diff --git a/src/RangeSet.cc b/src/RangeSet.cc
index 30b8f02..c64a13e 100644
--- a/src/RangeSet.cc
+++ b/src/RangeSet.cc
@@ -70,7 +70,7 @@ struct RangeIter {
     RangeIter operator--(int) { RangeIter i(*this); ptr -= 2; return i; }
 
     RangeIter operator+(ptrdiff_t n) const { return RangeIter(ptr + 2 * n); }
-    RangeIter operator-(ptrdiff_t n) const { return RangeIter(ptr + 2 * n); }
+    RangeIter operator-(ptrdiff_t n) const { return RangeIter(ptr - 2 * n); }
 
     RangeIter & operator+=(ptrdiff_t n) { ptr += 2 * n; return *this; }
     RangeIter & operator-=(ptrdiff_t n) { ptr -= 2 * n; return *this; }
-- 
2.43.0


From 86afb5f1557884282b00a2c102a0c959a9c833ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 05/17] fix: bind RangeSet.isValid to the validity check in
 Python

---
 python/lsst/sphgeom/_rangeSet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/sphgeom/_rangeSet.cc b/python/lsst/sphgeom/_rangeSet.cc
index c6559ba..e09fccb 100644
--- a/python/lsst/sphgeom/_rangeSet.cc
+++ b/python/lsst/sphgeom/_rangeSet.cc
@@ -206,7 +206,7 @@ void defineClass(py::class_<RangeSet, std::shared_ptr<RangeSet>> &cls) {
     cls.def("cardinality", &RangeSet::cardinality);
     // max_size() and swap() are omitted. The former is a C++ container
     // requirement, and the latter doesn't seem relevant to Python.
-    cls.def("isValid", &RangeSet::cardinality);
+    cls.def("isValid", &RangeSet::isValid);
     cls.def("ranges", &ranges);
 
     cls.def("__str__",
-- 
2.43.0


From 7eec0b3501d43522944b6488d5ac06ff0d3434f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 06/17] fix: check the length of an encoded polygon before
 reading its type code

---
 src/ConvexPolygon.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index 598ee8a..133f39f 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -368,8 +368,8 @@ std::vector<std::uint8_t> ConvexPolygon::encode() const {
 std::unique_ptr<ConvexPolygon> ConvexPolygon::decode(std::uint8_t const * buffer,
                                                      size_t n)
 {
-    if (buffer == nullptr || *buffer != TYPE_CODE ||
-        n < 1 + 24*3 || (n - 1) % 24 != 0) {
+    if (buffer == nullptr || n < 1 + 24*3 || (n - 1) % 24 != 0 ||
+        *buffer != TYPE_CODE) {
         throw std::runtime_error("Byte-string is not an encoded ConvexPolygon");
     }
     std::unique_ptr<ConvexPolygon> poly(new ConvexPolygon);
-- 
2.43.0


From 326743a51f72eb0a480c2aae40041b50de6400b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:45 +0000
Subject: [PATCH 07/17] fix: do not index out of bounds when normalizing a
 vector with a NaN component

---
 src/Vector3d.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Vector3d.cc b/src/Vector3d.cc
index f3dc349..f5e450c 100644
--- a/src/Vector3d.cc
+++ b/src/Vector3d.cc
@@ -55,12 +55,15 @@ double Vector3d::normalize() {
     //      ((|x| > |z|) << 2) +
     //      ((|x| > |y|) << 1) +
     //       (|y| > |z|)
+    //
+    // Indexes 3 and 4 are contradictory, and only arise from NaN components.
+    // Their entries are valid component indexes, so that NaNs propagate.
     static std::uint8_t const COMPONENT[8][4] = {
         {0, 1, 2, UNUSED},
         {0, 2, 1, UNUSED},
         {1, 0, 2, UNUSED},
-        {UNUSED, UNUSED, UNUSED, UNUSED},
-        {UNUSED, UNUSED, UNUSED, UNUSED},
+        {0, 2, 1, UNUSED},
+        {0, 2, 1, UNUSED},
         {2, 0, 1, UNUSED},
         {1, 2, 0, UNUSED},
         {2, 1, 0, UNUSED}
-- 
2.43.0


From d2c8c442fc2ec9843761f541e510dfe20b566120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:41 +0000
Subject: [PATCH 08/17] fix: raise the error of a failing sequence given to
 RangeSet instead of crashing

---
 python/lsst/sphgeom/_rangeSet.cc | 33 +++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/python/lsst/sphgeom/_rangeSet.cc b/python/lsst/sphgeom/_rangeSet.cc
index e09fccb..f428af0 100644
--- a/python/lsst/sphgeom/_rangeSet.cc
+++ b/python/lsst/sphgeom/_rangeSet.cc
@@ -53,17 +53,40 @@ uint64_t _uint64(py::handle const &obj) {
     }
 }
 
+/// Get the i-th item of a Python sequence.
+py::object _getItem(PyObject *sequence, Py_ssize_t i) {
+    PyObject *item = PySequence_GetItem(sequence, i);
+    if (item == nullptr) {
+        throw py::error_already_set();
+    }
+    return py::reinterpret_steal<py::object>(item);
+}
+
+/// Is the given object a sequence of two items?
+bool _isPair(PyObject *o) {
+    if (!PySequence_Check(o)) {
+        return false;
+    }
+    Py_ssize_t size = PySequence_Size(o);
+    if (size == -1) {
+        // An unsized object (like a 0-dimensional array) is not a pair.
+        if (!PyErr_ExceptionMatches(PyExc_TypeError)) {
+            throw py::error_already_set();
+        }
+        PyErr_Clear();
+    }
+    return size == 2;
+}
+
 /// Make a RangeSet from an iterable. Each item must be an integer that fits
 /// in a uint64_t, or a sequence of two such integers.
 RangeSet makeRangeSet(py::iterable iterable) {
     RangeSet rs;
     for (py::handle item : iterable) {
         PyObject *o = item.ptr();
-        if (PySequence_Check(o) && PySequence_Size(o) == 2) {
-            uint64_t first = _uint64(py::reinterpret_steal<py::object>(
-                    PySequence_GetItem(o, 0)));
-            uint64_t last = _uint64(py::reinterpret_steal<py::object>(
-                    PySequence_GetItem(o, 1)));
+        if (_isPair(o)) {
+            uint64_t first = _uint64(_getItem(o, 0));
+            uint64_t last = _uint64(_getItem(o, 1));
             rs.insert(first, last);
         } else {
             rs.insert(_uint64(item));
-- 
2.43.0


From 06d7b743fadeccb652f9b73d681dd69911fb0e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:44 +0000
Subject: [PATCH 09/17] fix: support pickle protocols 0 and 1 instead of
 terminating the interpreter

---
 include/lsst/sphgeom/python/utils.h    | 16 ++++++++++++++++
 python/lsst/sphgeom/_box.cc            |  1 +
 python/lsst/sphgeom/_circle.cc         |  1 +
 python/lsst/sphgeom/_compoundRegion.cc |  2 ++
 python/lsst/sphgeom/_convexPolygon.cc  |  1 +
 python/lsst/sphgeom/_ellipse.cc        |  1 +
 python/lsst/sphgeom/_unitVector3d.cc   |  1 +
 7 files changed, 23 insertions(+)

diff --git a/include/lsst/sphgeom/python/utils.h b/include/lsst/sphgeom/python/utils.h
index a5d7a5d..99e387e 100644
--- a/include/lsst/sphgeom/python/utils.h
+++ b/include/lsst/sphgeom/python/utils.h
@@ -73,6 +73,22 @@ std::unique_ptr<R> decode(pybind11::bytes bytes) {
     return R::decode(buffer, n);
 }
 
+/// Make instances of a class that defines `__getstate__` and `__setstate__`
+/// (see `pybind11::pickle`) picklable with protocols 0 and 1.
+///
+/// By default, those protocols instantiate the pybind11 base class of the
+/// given class directly, which terminates the interpreter. The pickles
+/// produced by later protocols are the same with and without this.
+template <typename PyClass>
+inline void defineReduce(PyClass &cls) {
+    cls.def("__reduce__", [](pybind11::object self) {
+        return pybind11::make_tuple(
+                pybind11::module_::import("copyreg").attr("__newobj__"),
+                pybind11::make_tuple(pybind11::type::of(self)),
+                self.attr("__getstate__")());
+    });
+}
+
 /// Create a vector of Region (or Region-subclass) pointers by copying the
 /// regions from a sized Python iterable (e.g. S == py::tuple).
 ///
diff --git a/python/lsst/sphgeom/_box.cc b/python/lsst/sphgeom/_box.cc
index d3d7476..48b2cb8 100644
--- a/python/lsst/sphgeom/_box.cc
+++ b/python/lsst/sphgeom/_box.cc
@@ -158,6 +158,7 @@ void defineClass(py::class_<Box, std::unique_ptr<Box>, Region> &cls) {
         return py::str("Box({!r}, {!r})").format(self.getLon(), self.getLat());
     });
     cls.def(py::pickle(&python::encode, &python::decode<Box>));
+    python::defineReduce(cls);
 }
 
 }  // sphgeom
diff --git a/python/lsst/sphgeom/_circle.cc b/python/lsst/sphgeom/_circle.cc
index 7714d59..147fea0 100644
--- a/python/lsst/sphgeom/_circle.cc
+++ b/python/lsst/sphgeom/_circle.cc
@@ -140,6 +140,7 @@ void defineClass(py::class_<Circle, std::unique_ptr<Circle>, Region> &cls) {
                 .format(self.getCenter(), self.getOpeningAngle());
     });
     cls.def(py::pickle(&python::encode, &python::decode<Circle>));
+    python::defineReduce(cls);
 }
 
 }  // sphgeom
diff --git a/python/lsst/sphgeom/_compoundRegion.cc b/python/lsst/sphgeom/_compoundRegion.cc
index 44ccb1a..c6585b6 100644
--- a/python/lsst/sphgeom/_compoundRegion.cc
+++ b/python/lsst/sphgeom/_compoundRegion.cc
@@ -64,6 +64,7 @@ void defineClass(py::class_<UnionRegion, std::unique_ptr<UnionRegion>, CompoundR
     cls.attr("TYPE_CODE") = py::int_(UnionRegion::TYPE_CODE);
     cls.def(py::init<Region const &, Region const &>());
     cls.def(py::pickle(&python::encode, &python::decode<UnionRegion>));
+    python::defineReduce(cls);
     cls.def("__repr__", [](CompoundRegion const &self) { return _repr("UnionRegion({!r}, {!r})", self); });
 }
 
@@ -72,6 +73,7 @@ void defineClass(py::class_<IntersectionRegion, std::unique_ptr<IntersectionRegi
     cls.attr("TYPE_CODE") = py::int_(IntersectionRegion::TYPE_CODE);
     cls.def(py::init<Region const &, Region const &>());
     cls.def(py::pickle(&python::encode, &python::decode<IntersectionRegion>));
+    python::defineReduce(cls);
     cls.def("__repr__", [](CompoundRegion const &self) { return _repr("IntersectionRegion({!r}, {!r})", self); });
 }
 
diff --git a/python/lsst/sphgeom/_convexPolygon.cc b/python/lsst/sphgeom/_convexPolygon.cc
index 1018bff..ad3f61b 100644
--- a/python/lsst/sphgeom/_convexPolygon.cc
+++ b/python/lsst/sphgeom/_convexPolygon.cc
@@ -83,6 +83,7 @@ void defineClass(py::class_<ConvexPolygon, std::unique_ptr<ConvexPolygon>,
         return py::str("ConvexPolygon({!r})").format(self.getVertices());
     });
     cls.def(py::pickle(&python::encode, &python::decode<ConvexPolygon>));
+    python::defineReduce(cls);
 }
 
 }  // sphgeom
diff --git a/python/lsst/sphgeom/_ellipse.cc b/python/lsst/sphgeom/_ellipse.cc
index 36fca96..8e15c3d 100644
--- a/python/lsst/sphgeom/_ellipse.cc
+++ b/python/lsst/sphgeom/_ellipse.cc
@@ -92,6 +92,7 @@ void defineClass(py::class_<Ellipse, std::unique_ptr<Ellipse>, Region> &cls) {
                 .format(self.getF1(), self.getF2(), self.getAlpha());
     });
     cls.def(py::pickle(&python::encode, &python::decode<Ellipse>));
+    python::defineReduce(cls);
 }
 
 }  // sphgeom
diff --git a/python/lsst/sphgeom/_unitVector3d.cc b/python/lsst/sphgeom/_unitVector3d.cc
index 62b949a..0a6f85c 100644
--- a/python/lsst/sphgeom/_unitVector3d.cc
+++ b/python/lsst/sphgeom/_unitVector3d.cc
@@ -129,6 +129,7 @@ void defineClass(py::class_<UnitVector3d, std::shared_ptr<UnitVector3d>> &cls) {
                            return new UnitVector3d(UnitVector3d::fromNormalized(
                                    t[0].cast<double>(), t[1].cast<double>(), t[2].cast<double>()));
                        }));
+    python::defineReduce(cls);
 }
 
 }  // sphgeom
-- 
2.43.0


From bed199806b9f678f3687272bc067f595ea18f636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:50 +0000
Subject: [PATCH 10/17] fix: reject bad relationship arguments with a TypeError

The caster threw pybind11's cast_error from load(), which surfaces as a
RuntimeError and keeps other overloads from being tried.
---
 include/lsst/sphgeom/python/relationship.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lsst/sphgeom/python/relationship.h b/include/lsst/sphgeom/python/relationship.h
index 745804e..1f5b344 100644
--- a/include/lsst/sphgeom/python/relationship.h
+++ b/include/lsst/sphgeom/python/relationship.h
@@ -52,8 +52,12 @@ public:
     PYBIND11_TYPE_CASTER(lsst::sphgeom::Relationship, _("int"));
 
     // Convert a Python object to an lsst::sphgeom::Relationship.
-    bool load(handle src, bool) {
-        value = lsst::sphgeom::Relationship(src.cast<unsigned long long>());
+    bool load(handle src, bool convert) {
+        make_caster<unsigned long long> caster;
+        if (!caster.load(src, convert)) {
+            return false;
+        }
+        value = lsst::sphgeom::Relationship(cast_op<unsigned long long>(caster));
         return true;
     }
 
-- 
2.43.0


From 833a385ac27a4dc4deea63c7fcac1f4d472e5705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:30 +0000
Subject: [PATCH 11/17] fix: check stripe numbers before computing chunk
 bounding boxes

A stripe or sub-stripe number outside of the chunker read past the end of
a vector; getAllSubChunks() and valid() already use checked access.
---
 src/Chunker.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index 56a7b28..25ddc49 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -296,7 +296,7 @@ bool Chunker::valid(std::int32_t chunkId) const {
 }
 
 Box Chunker::getChunkBoundingBox(std::int32_t stripe, std::int32_t chunk) const {
-    Angle chunkWidth = _stripes[stripe].chunkWidth;
+    Angle chunkWidth = _stripes.at(stripe).chunkWidth;
     NormalizedAngleInterval lon(chunkWidth * chunk,
                                 chunkWidth * (chunk + 1));
     std::int32_t ss = stripe * _numSubStripesPerStripe;
@@ -307,7 +307,7 @@ Box Chunker::getChunkBoundingBox(std::int32_t stripe, std::int32_t chunk) const
 }
 
 Box Chunker::getSubChunkBoundingBox(std::int32_t subStripe, std::int32_t subChunk) const {
-    Angle subChunkWidth = _subStripes[subStripe].subChunkWidth;
+    Angle subChunkWidth = _subStripes.at(subStripe).subChunkWidth;
     NormalizedAngleInterval lon(subChunkWidth * subChunk,
                                 subChunkWidth * (subChunk + 1));
     AngleInterval lat(subStripe * _subStripeHeight - Angle(0.5 * PI),
-- 
2.43.0


From f968409ab9abd7d705395fa5476010e069600180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:33 +0000
Subject: [PATCH 12/17] fix: strip leading zeroes of BigInteger differences

_sub looked for leading zeroes in the minuend rather than in the difference,
so that subtracting a smaller magnitude in place from a larger one could leave
leading zero digits. A later subtraction then chose its operands by digit count
and borrowed past the end of the digits.
---
 src/BigInteger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index 99e345c..2c7fbfc 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -103,7 +103,7 @@ unsigned _sub(std::uint32_t * const m,
     // If we subtracted anything from the most significant digit in m1, strip
     // any leading zeroes that may have been introduced.
     if (i == size1) {
-        while (m1[i - 1] == 0) { --i; }
+        while (m[i - 1] == 0) { --i; }
         return i;
     }
     // Otherwise, copy the remaining digits from m1 to m.
-- 
2.43.0


From fe6660a84ccfa26859a3f84448f2218456476d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:33 +0000
Subject: [PATCH 13/17] fix: zero the right digits in BigInteger::multiplyPow2

Shifts by more than one digit that are not a multiple of the digit size
cleared digits 1..z instead of 0..z-1.
---
 src/BigInteger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index 2c7fbfc..b533c25 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -246,7 +246,7 @@ BigInteger & BigInteger::multiplyPow2(unsigned n) {
         }
         _digits[z] = high << s;
         for (unsigned i = z; i != 0; --i) {
-            _digits[i] = 0;
+            _digits[i - 1] = 0;
         }
         _size = (_digits[size] == 0) ? size: size + 1;
     }
-- 
2.43.0


From 25dce14d97ebb24fc5a84dac534e4e9e167b307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:44 +0000
Subject: [PATCH 14/17] fix: multiply BigIntegers whose digits alias the longer
 factor

_mul overwrote digits of its second factor that it still needed, which
happened when a number was multiplied by itself or by a number with more
digits. The product is now always accumulated over the first factor, and
squaring works on a copy of the digits.
---
 src/BigInteger.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index b533c25..7d0b25c 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -33,6 +33,7 @@
 #include "lsst/sphgeom/BigInteger.h"
 
 #include <algorithm>
+#include <vector>
 
 
 namespace lsst {
@@ -114,8 +115,8 @@ unsigned _sub(std::uint32_t * const m,
 }
 
 // `_mul` computes the product of m1 and m2 and stores the result in m,
-// which may equal either m1 or m2. It assumes that m1 has at least as many
-// digits as m2, and returns the the number of digits in the product.
+// which may equal m1 but not m2. It returns the the number of digits in the
+// product.
 unsigned _mul(std::uint32_t * const m,
               std::uint32_t const * const m1,
               std::uint32_t const * const m2,
@@ -126,8 +127,8 @@ unsigned _mul(std::uint32_t * const m,
     // digit counts. A requirement for anything fancier involves enough
     // complexity that switching to GMP is definitely warranted.
     //
-    // The only small subtlety here is that because m is allowed to alias m1
-    // or m2, we compute products of m2 from most to least significant digit of
+    // The only small subtlety here is that because m is allowed to alias m1,
+    // we compute products of m2 from most to least significant digit of
     // m1. This way no as yet unprocessed input digits are overwritten.
     unsigned const size = size1 + size2;
     for (unsigned i = size1; i < size; ++i) {
@@ -260,10 +261,11 @@ BigInteger & BigInteger::multiply(BigInteger const & b) {
         return *this;
     }
     _checkCapacity(_size + b._size);
-    if (_size >= b._size) {
-        _size = _mul(_digits, _digits, b._digits, _size, b._size);
+    if (this == &b) {
+        std::vector<std::uint32_t> const digits(_digits, _digits + _size);
+        _size = _mul(_digits, digits.data(), digits.data(), _size, _size);
     } else {
-        _size = _mul(_digits, b._digits, _digits, b._size, _size);
+        _size = _mul(_digits, _digits, b._digits, _size, b._size);
     }
     return *this;
 }
-- 
2.43.0


From 7e8676388fd3ed5ec5a1d2d2c3e16353e8f1ce8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:03 +0000
Subject: [PATCH 15/17] fix: leave a BigInteger unchanged when its product does
 not fit

multiply changed the sign before checking the capacity, so that a product
rejected for lack of digits could negate its target.
---
 src/BigInteger.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index 7d0b25c..944b47d 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -255,18 +255,19 @@ BigInteger & BigInteger::multiplyPow2(unsigned n) {
 }
 
 BigInteger & BigInteger::multiply(BigInteger const & b) {
-    _sign *= b._sign;
-    if (_sign == 0) {
-        _size = 0;
+    if (_sign == 0 || b._sign == 0) {
+        setToZero();
         return *this;
     }
     _checkCapacity(_size + b._size);
+    int const sign = _sign * b._sign;
     if (this == &b) {
         std::vector<std::uint32_t> const digits(_digits, _digits + _size);
         _size = _mul(_digits, digits.data(), digits.data(), _size, _size);
     } else {
         _size = _mul(_digits, _digits, b._digits, _size, b._size);
     }
+    _sign = sign;
     return *this;
 }
 
-- 
2.43.0


From 2b92bb076f2913a6a381c37be299a97ad6273dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 16/17] fix: leave a BigInteger unchanged when its difference
 does not fit

---
 src/BigInteger.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index 944b47d..65055f7 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -211,7 +211,12 @@ BigInteger & BigInteger::subtract(BigInteger const & b) {
         // Avoid code duplication by computing a - b = -(-a + b).
         // This only works if a and b are distinct.
         negate();
-        add(b);
+        try {
+            add(b);
+        } catch (...) {
+            negate();
+            throw;
+        }
         negate();
     } else {
         setToZero();
-- 
2.43.0


From aa1f3f263c075dabe89c71fedb7de87abdaaa735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 17/17] fix: do not overflow when setting a BigInteger to the
 smallest integer

---
 include/lsst/sphgeom/BigInteger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lsst/sphgeom/BigInteger.h b/include/lsst/sphgeom/BigInteger.h
index b64ea99..c3dc417 100644
--- a/include/lsst/sphgeom/BigInteger.h
+++ b/include/lsst/sphgeom/BigInteger.h
@@ -89,7 +89,7 @@ public:
     /// `setTo` sets this integer to the given signed 64 bit integer value.
     void setTo(std::int64_t x) {
         if (x < 0) {
-            setTo(static_cast<std::uint64_t>(-x));
+            setTo(-static_cast<std::uint64_t>(x));
             _sign = -1;
         } else {
             setTo(static_cast<std::uint64_t>(x));
-- 
2.43.0

