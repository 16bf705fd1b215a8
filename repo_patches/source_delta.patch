From c982dc3dbf66238a57451bedb7db575a72f09baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:14 +0000
Subject: [PATCH 01/40] fix: angle normalisation could return the excluded
 bound of its interval

Tiny negative angles were rounded up to exactly 360 (resp. 2 pi), and single
precision angles just above an odd multiple of pi were rounded down to -pi.
---
 src/MathUtils/Angles.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/Angles.h b/src/MathUtils/Angles.h
index cc2af7e..ba57533 100644
--- a/src/MathUtils/Angles.h
+++ b/src/MathUtils/Angles.h
@@ -43,6 +43,7 @@ namespace mathutils {
     Real angle = modulo360(a);
     if (angle < 0) {
       angle += 360;
+      if (angle >= 360) angle = 0; // tiny negative angle rounded up to a whole turn
     }
     return angle;
   }
@@ -63,6 +64,7 @@ namespace mathutils {
     Real angle = modulo2pi(a);
     if (angle < 0) {
       angle += MU_2PI;
+      if (angle >= (Real) MU_2PI) angle = 0; // tiny negative angle rounded up to a whole turn
     }
     return angle;
   }
@@ -74,7 +76,9 @@ namespace mathutils {
     if (angle <= 0) {
       angle += MU_2PI;
     }
-    return angle - M_PI;
+    angle -= M_PI;
+    if (angle <= (Real) -M_PI) angle = M_PI; // rounded down onto the excluded bound (single precision)
+    return angle;
   }
 
   /// Convert string to angular unit
-- 
2.43.0


From 51d788c7e2d8e6493988c0952137d1f38995a4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:36 +0000
Subject: [PATCH 02/40] fix: rad2deg on a const vector converts the output
 instead of not compiling

---
 src/MathUtils/Unit.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/Unit.h b/src/MathUtils/Unit.h
index 50f2dd9..c3dbaa8 100644
--- a/src/MathUtils/Unit.h
+++ b/src/MathUtils/Unit.h
@@ -52,7 +52,8 @@ namespace mathutils {
   // TODO : faire la meme inplace...
   inline std::vector<T> rad2deg(const std::vector<T> &vector, std::vector<T> &out) {
     out = vector;
-    rad2deg(vector);
+    rad2deg(out);
+    return out;
   }
 
 
-- 
2.43.0


From ba4075ca9e67c0cd2cee94732871e124b2e51da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:36 +0000
Subject: [PATCH 03/40] fix: Vector2d::infNorm ignores the sign of coefficients
 like its siblings

---
 src/MathUtils/Vector2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/Vector2d.h b/src/MathUtils/Vector2d.h
index 0cfec94..21903f8 100644
--- a/src/MathUtils/Vector2d.h
+++ b/src/MathUtils/Vector2d.h
@@ -220,7 +220,7 @@ namespace mathutils {
 
     template <class Scalar>
     Scalar Vector2d<Scalar>::infNorm() const {
-        return this->Eigen::Matrix<Scalar, 2, 1>::maxCoeff();
+        return this->Eigen::Matrix<Scalar, 2, 1>::template lpNorm<Eigen::Infinity>();
     }
 
     template <class Scalar>
-- 
2.43.0


From ce3a744db0cba14ef1a40b12f093537488782d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:50 +0000
Subject: [PATCH 04/40] fix: initialising a linear interpolator again drops the
 coefficients of the previous data

---
 src/MathUtils/Interp1d.h | 2 ++
 src/MathUtils/Interp2d.h | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/MathUtils/Interp1d.h b/src/MathUtils/Interp1d.h
index ef607cb..570f481 100644
--- a/src/MathUtils/Interp1d.h
+++ b/src/MathUtils/Interp1d.h
@@ -148,6 +148,8 @@ namespace mathutils {
 
     Interp1d<XReal, YScalar>::Initialize(x, y);
 
+    a.clear();
+    b.clear();
     a.reserve(this->ndata);
     b.reserve(this->ndata);
 
diff --git a/src/MathUtils/Interp2d.h b/src/MathUtils/Interp2d.h
index 74fc19c..3b75c48 100644
--- a/src/MathUtils/Interp2d.h
+++ b/src/MathUtils/Interp2d.h
@@ -114,6 +114,10 @@ namespace mathutils {
 
         Interp2d<Real>::Initialize(x, y, data);
 
+        a1.clear();
+        a2.clear();
+        a3.clear();
+        a4.clear();
         a1.reserve(this->ndata);
         a2.reserve(this->ndata);
         a3.reserve(this->ndata);
-- 
2.43.0


From 855b1da4d72c56057b67916e2893291921fd93a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:50 +0000
Subject: [PATCH 05/40] fix: linear extrapolation above the last abscissa
 prolongs the last segment instead of throwing

---
 src/MathUtils/Interp1d.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MathUtils/Interp1d.h b/src/MathUtils/Interp1d.h
index 570f481..0350238 100644
--- a/src/MathUtils/Interp1d.h
+++ b/src/MathUtils/Interp1d.h
@@ -180,6 +180,7 @@ namespace mathutils {
     auto index = std::distance(this->xcoord->begin(), upper);
 
     if (index == 0) index = 1;  // Bug fix for x == xmin
+    if (index == this->ndata) index = this->ndata - 1;  // x > xmax: prolong the last segment
 
     YScalar a_ = a.at(index - 1);
     YScalar b_ = b.at(index - 1);
-- 
2.43.0


From c27e8e9857309286154409a1e4ae30341066357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:50 +0000
Subject: [PATCH 06/40] fix: interpolators owned through their base class get a
 virtual destructor

---
 src/MathUtils/Interp1d.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MathUtils/Interp1d.h b/src/MathUtils/Interp1d.h
index 0350238..c0b587c 100644
--- a/src/MathUtils/Interp1d.h
+++ b/src/MathUtils/Interp1d.h
@@ -28,6 +28,8 @@ namespace mathutils {
 
    public:
 
+    virtual ~Interp1d() = default;
+
     YScalar Eval(XReal x) const {return PrivEval(x);};
 
     std::vector<YScalar> Eval(const std::vector<XReal> &xvector) const {
-- 
2.43.0


From 3c0c2d0c962b65523f450574fee5b7f56e5f6a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:50 +0000
Subject: [PATCH 07/40] fix: moving a LookupTable1D keeps its interpolation
 method

---
 src/MathUtils/LookupTable1D.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/LookupTable1D.h b/src/MathUtils/LookupTable1D.h
index 1837128..ba10efc 100644
--- a/src/MathUtils/LookupTable1D.h
+++ b/src/MathUtils/LookupTable1D.h
@@ -42,6 +42,7 @@ namespace mathutils {
     /// Move constructor allowing to move the interpolators vector storing unique_ptr instances
     LookupTable1D &operator=(LookupTable1D &&table) {
       if (this != &table) {
+        interp_method = table.interp_method;
         Xcoords = std::move(table.Xcoords);
         assoc = std::move(table.assoc);
         Ydata = std::move(table.Ydata);
@@ -52,7 +53,8 @@ namespace mathutils {
 
     /// Move operator allowing to move the interpolators vector storing unique_ptr instances
     LookupTable1D(LookupTable1D &&table)
-        : Xcoords(std::move(table.Xcoords)),
+        : interp_method(table.interp_method),
+          Xcoords(std::move(table.Xcoords)),
           assoc(std::move(table.assoc)),
           Ydata(std::move(table.Ydata)),
           interpolators(std::move(table.interpolators)) {};
-- 
2.43.0


From 3312e232c0fda26bb585cc449b4870d03fd08a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:54 +0000
Subject: [PATCH 08/40] fix: 2D interpolators owned through their base class
 get a virtual destructor

---
 src/MathUtils/Interp2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/Interp2d.h b/src/MathUtils/Interp2d.h
index 3b75c48..8478e5a 100644
--- a/src/MathUtils/Interp2d.h
+++ b/src/MathUtils/Interp2d.h
@@ -28,7 +28,7 @@ namespace mathutils {
 
     public:
 //        Interp2d() {};
-//        ~Interp2d() {};
+        virtual ~Interp2d() = default;
 
         virtual void Initialize(std::shared_ptr<const std::vector<Real>> x,
                                 std::shared_ptr<const std::vector<Real>> y,
-- 
2.43.0


From e2ff2b603086e0368a8959c29fdf20164a39abd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:54 +0000
Subject: [PATCH 09/40] fix: evaluating a LookupTable2d at a coordinate pair
 did not compile

---
 src/MathUtils/LookupTable2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/LookupTable2D.h b/src/MathUtils/LookupTable2D.h
index 2bc6d3a..dcbdc7a 100644
--- a/src/MathUtils/LookupTable2D.h
+++ b/src/MathUtils/LookupTable2D.h
@@ -136,7 +136,7 @@ namespace mathutils {
 
     template <class Real>
     Real LookupTable2d<Real>::Eval(const std::string name, const std::vector<Real> coord) const {
-        return interpolators.at(GetIndex(name))->Eval(coord);
+        return interpolators.at(GetIndex(name))->Eval(coord.at(0), coord.at(1));
     }
 
     template <class Real>
-- 
2.43.0


From 849d3cae3f7d59ad644c9eb6aaa75003d11870bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:54 +0000
Subject: [PATCH 10/40] fix: a failing addition leaves lookup tables as they
 were

---
 src/MathUtils/LookupTable1D.h | 35 +++++++++++++++--------------------
 src/MathUtils/LookupTable2D.h | 24 +++++++++++-------------
 2 files changed, 26 insertions(+), 33 deletions(-)

diff --git a/src/MathUtils/LookupTable1D.h b/src/MathUtils/LookupTable1D.h
index ba10efc..e4a0e78 100644
--- a/src/MathUtils/LookupTable1D.h
+++ b/src/MathUtils/LookupTable1D.h
@@ -109,32 +109,27 @@ namespace mathutils {
     // Get the future position of the new Serie
     auto i = GetNbSeries();
 
-    // Trying to insert the new name/index into the association map
-    auto res_pair = assoc.insert(std::pair<std::string, unsigned long>(name, i));
-
-    if (!res_pair.second) { // Name already exists into the map
+    if (assoc.find(name) != assoc.end()) { // Name already exists into the map
       std::cout << "Data have not been added to the LUT" << std::endl;
+      return false;
+    }
 
-    } else {
-      // We can add data
-      auto Y_shared = std::make_shared<std::vector<Yscalar>>(Y);
-      Ydata.push_back(Y_shared);
-
-      // Building the interpolator based on the global interpolation method of the LUT
-      auto interp_ptr = Interp1d<Xscalar, Yscalar>::MakeInterp1d(interp_method);
-      // FIXME: ICI, on ne recupere pas comme voulu un pointeur vers un objet FrInterp1dLinear
-      // Du coup, la methode Initialize appelee apres n'est que celle de
-
-      // Initializing the interpolator
-      interp_ptr->Initialize(Xcoords, Y_shared);
+    // We can add data
+    auto Y_shared = std::make_shared<std::vector<Yscalar>>(Y);
 
-      auto interp_unique = std::unique_ptr<Interp1d<Xscalar, Yscalar>>(interp_ptr);
+    // Building the interpolator based on the global interpolation method of the LUT.
+    // This is done first: if it throws, the table is left as it was
+    auto interp_unique = std::unique_ptr<Interp1d<Xscalar, Yscalar>>(
+        Interp1d<Xscalar, Yscalar>::MakeInterp1d(interp_method));
 
-      interpolators.push_back(std::move(interp_unique));
+    // Initializing the interpolator
+    interp_unique->Initialize(Xcoords, Y_shared);
 
-    }
+    Ydata.push_back(Y_shared);
+    interpolators.push_back(std::move(interp_unique));
+    assoc.insert(std::pair<std::string, unsigned long>(name, i));
 
-    return res_pair.second;
+    return true;
   }
 
   template<class Xscalar, class Yscalar>
diff --git a/src/MathUtils/LookupTable2D.h b/src/MathUtils/LookupTable2D.h
index dcbdc7a..e5ded26 100644
--- a/src/MathUtils/LookupTable2D.h
+++ b/src/MathUtils/LookupTable2D.h
@@ -108,25 +108,23 @@ namespace mathutils {
 
         auto i = GetNbSeries();
 
-        auto res_pair = assoc.insert(std::pair<std::string, unsigned long>(name, i));
-
-        if (!res_pair.second) {
+        if (HasSerie(name)) {
             std::cout << "Data have not been added to the LUT" << std::endl;
-        } else {
-
-            auto Data_shared = std::make_shared<std::vector<Real>>(Data);
-            MData.push_back(Data_shared);
+            return false;
+        }
 
-            auto interp_ptr = Interp2d<Real>::MakeInterp2d(interp_method);
+        auto Data_shared = std::make_shared<std::vector<Real>>(Data);
 
-            interp_ptr->Initialize(Xcoords, Ycoords, Data_shared);
+        // The interpolator is built first: if this throws, the table is left as it was
+        auto interp_unique = std::unique_ptr<Interp2d<Real>>(Interp2d<Real>::MakeInterp2d(interp_method));
 
-            auto interp_unique = std::unique_ptr<Interp2d< Real>>(interp_ptr);
+        interp_unique->Initialize(Xcoords, Ycoords, Data_shared);
 
-            interpolators.push_back(std::move(interp_unique));
-        }
+        MData.push_back(Data_shared);
+        interpolators.push_back(std::move(interp_unique));
+        assoc.insert(std::pair<std::string, unsigned long>(name, i));
 
-        return res_pair.second;
+        return true;
     }
 
     template <class Real>
-- 
2.43.0


From bda9bf9d7f58e1093cd436f46e3e0241d7059808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:53 +0000
Subject: [PATCH 11/40] fix: copying a RegularGridInterpolator that has no
 variable yet read past its axes

---
 src/MathUtils/RegularGridInterpolator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/RegularGridInterpolator.h b/src/MathUtils/RegularGridInterpolator.h
index 9635b18..9d9b60c 100644
--- a/src/MathUtils/RegularGridInterpolator.h
+++ b/src/MathUtils/RegularGridInterpolator.h
@@ -117,8 +117,13 @@ RegularGridInterpolator<Real, _dim>::operator=(const RegularGridInterpolator &ot
   ex.assign(shape, shape + other.m_data.num_dimensions());
   m_data.resize(ex);
   m_data = other.m_data;
+  m_limits = other.m_limits;
 
-  _BuildInterpolator();
+  if (other.IsValid()) {
+    _BuildInterpolator();
+  } else {
+    c_interpolator.reset();
+  }
   return *this;
 }
 
-- 
2.43.0


From 1bcd68eb755d5abe7a0f4d8ac0a1020b6adf3979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:53 +0000
Subject: [PATCH 12/40] fix: a variable refused by RegularGridInterpolator no
 longer destroys the current one

---
 src/MathUtils/RegularGridInterpolator.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/RegularGridInterpolator.h b/src/MathUtils/RegularGridInterpolator.h
index 9d9b60c..8c57f96 100644
--- a/src/MathUtils/RegularGridInterpolator.h
+++ b/src/MathUtils/RegularGridInterpolator.h
@@ -153,9 +153,17 @@ void RegularGridInterpolator<Real, _dim>::AddVar(const NDArray &ndarray) {
     exit(EXIT_FAILURE);
   }
 
+  const size_t *shape = ndarray.shape();
+
+  // Refusing a wrong shape before touching the current variable
+  for (size_t dim = 0; dim < _dim; ++dim) {
+    if (shape[dim] != m_grid_list[dim].size()) {
+      throw std::invalid_argument("RegularGridInterpolator::AddVar called with a variable that does not fit the grid");
+    }
+  }
+
   // Copying the multi_array
   std::vector<size_t> ex;
-  const size_t *shape = ndarray.shape();
   ex.assign(shape, shape + ndarray.num_dimensions());
   m_data.resize(ex);
   m_data = ndarray;
-- 
2.43.0


From 42ebcd9d191e284187b8008f474d62ee80ab37fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:53 +0000
Subject: [PATCH 13/40] fix: axes and bounds of a partially defined
 RegularGridInterpolator were read uninitialised

---
 src/MathUtils/RegularGridInterpolator.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/MathUtils/RegularGridInterpolator.h b/src/MathUtils/RegularGridInterpolator.h
index 8c57f96..c422c4e 100644
--- a/src/MathUtils/RegularGridInterpolator.h
+++ b/src/MathUtils/RegularGridInterpolator.h
@@ -142,6 +142,10 @@ void RegularGridInterpolator<Real, _dim>::AddCoord(const std::vector<Real> &vec)
   }
 
   m_grid_list.push_back(vec);
+
+  if (!vec.empty()) {
+    m_limits[m_grid_list.size() - 1] = std::make_pair(vec.front(), vec.back());
+  }
 }
 
 template<typename Real, size_t _dim>
@@ -228,7 +232,7 @@ bool RegularGridInterpolator<Real, _dim>::IsValid() const {
 
 template<typename Real, size_t _dim>
 std::vector<Real> RegularGridInterpolator<Real, _dim>::GetCoord(unsigned int idx) const {
-  if (idx >= _dim) {
+  if (idx >= m_grid_list.size()) {
     std::cerr << "In RegularGridInterpolator, requesting a coordinate with index that is out of dimension" << std::endl;
     exit(EXIT_FAILURE);
   }
@@ -237,7 +241,7 @@ std::vector<Real> RegularGridInterpolator<Real, _dim>::GetCoord(unsigned int idx
 
 template<typename Real, size_t _dim>
 Real RegularGridInterpolator<Real, _dim>::GetCoordMaxVal(unsigned int idx) const {
-  if (idx >= _dim) {
+  if (idx >= m_grid_list.size()) {
     std::cerr << "In RegularGridInterpolator, requesting a coordinate with index that is out of dimension" << std::endl;
     exit(EXIT_FAILURE);
   }
@@ -246,7 +250,7 @@ Real RegularGridInterpolator<Real, _dim>::GetCoordMaxVal(unsigned int idx) const
 
 template<typename Real, size_t _dim>
 Real RegularGridInterpolator<Real, _dim>::GetCoordMinVal(unsigned int idx) const {
-  if (idx >= _dim) {
+  if (idx >= m_grid_list.size()) {
     std::cerr << "In RegularGridInterpolator, requesting a coordinate with index that is out of dimension" << std::endl;
     exit(EXIT_FAILURE);
   }
-- 
2.43.0


From c78b4501631c6af654cf9f2292c1b8a327ed486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:53 +0000
Subject: [PATCH 14/40] fix: RegularGridNearest::GetData returned nothing

---
 src/MathUtils/RegularGridNearest.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/RegularGridNearest.h b/src/MathUtils/RegularGridNearest.h
index 2bab210..eeb3098 100644
--- a/src/MathUtils/RegularGridNearest.h
+++ b/src/MathUtils/RegularGridNearest.h
@@ -179,7 +179,7 @@ namespace mathutils {
   template<typename Data_t, size_t _dim, typename Coord_t>
   Data_t
   RegularGridNearest<Data_t, _dim, Coord_t>::GetData(const std::array<Coord_t, _dim> &point) const {
-
+    return Nearest(point).val();
   }
 
 
-- 
2.43.0


From 387ad688ea8981e8eaa4fe97f2df0b8d39f310a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:53 +0000
Subject: [PATCH 15/40] fix: surrounding nodes of a point below the grid are
 those of the lower border

---
 src/MathUtils/RegularGridNearest.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/MathUtils/RegularGridNearest.h b/src/MathUtils/RegularGridNearest.h
index eeb3098..fcd038b 100644
--- a/src/MathUtils/RegularGridNearest.h
+++ b/src/MathUtils/RegularGridNearest.h
@@ -81,9 +81,9 @@ namespace mathutils {
     bool IsValid() const;
 
    private:
-    GridNode<Data_t, _dim, Coord_t> GetNode(const std::array<size_t, _dim> &cell_index, unsigned int v) const;
+    GridNode<Data_t, _dim, Coord_t> GetNode(const std::array<long, _dim> &cell_index, unsigned int v) const;
 
-    GridNode<Data_t, _dim, Coord_t> GetNode(const std::array<size_t, _dim> &cell_index,
+    GridNode<Data_t, _dim, Coord_t> GetNode(const std::array<long, _dim> &cell_index,
                                             const std::array<size_t, _dim> &v_index) const;
 
    private:
@@ -233,13 +233,13 @@ namespace mathutils {
     std::vector<GridNode<Data_t, _dim, Coord_t>> nodes;
     nodes.reserve(1 << _dim);
 
-    // Get the cell origin lower indices
-    std::array<size_t, _dim> indices;
+    // Get the cell origin lower indices (-1 is before the first grid point)
+    std::array<long, _dim> indices;
 
     for (unsigned int dim = 0; dim < _dim; ++dim) {
       auto xi = point[dim];
 
-      unsigned int icell;
+      long icell;
 
       // Looking for the cell in which the xi point lies
       const auto &coord = m_grid_list[dim];
@@ -271,7 +271,7 @@ namespace mathutils {
 
   template<typename Data_t, size_t _dim, typename Coord_t>
   GridNode<Data_t, _dim, Coord_t>
-  RegularGridNearest<Data_t, _dim, Coord_t>::GetNode(const std::array<size_t, _dim> &cell_index, unsigned int v) const {
+  RegularGridNearest<Data_t, _dim, Coord_t>::GetNode(const std::array<long, _dim> &cell_index, unsigned int v) const {
     std::array<size_t, _dim> v_index;
     for (unsigned int dim = 0; dim < _dim; ++dim) {
       v_index[dim] = (v >> (_dim - dim - 1)) & 1;  // test if the i-th bit is set
@@ -281,7 +281,7 @@ namespace mathutils {
 
   template<typename Data_t, size_t _dim, typename Coord_t>
   GridNode<Data_t, _dim, Coord_t>
-  RegularGridNearest<Data_t, _dim, Coord_t>::GetNode(const std::array<size_t, _dim> &cell_index,
+  RegularGridNearest<Data_t, _dim, Coord_t>::GetNode(const std::array<long, _dim> &cell_index,
                                                      const std::array<size_t, _dim> &v_index) const {
 
     std::array<size_t, _dim> indices;
@@ -292,7 +292,7 @@ namespace mathutils {
 
       if (cell_index[i] < 0) {
         indices[i] = 0;
-      } else if (cell_index[i] >= coord.size() - 1) {
+      } else if (cell_index[i] >= (long) coord.size() - 1) {
         indices[i] = m_grid_list[i].size() - 1;
       } else {
         indices[i] = cell_index[i] + v_index[i];
-- 
2.43.0


From 6cbfc933f57d4f00fb246f30baa32ba8a58739a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:31 +0000
Subject: [PATCH 16/40] fix: arange returns start, start+step, ... below stop
 instead of stretching them

---
 src/MathUtils/VectorGeneration.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/MathUtils/VectorGeneration.h b/src/MathUtils/VectorGeneration.h
index 82a220a..084775c 100644
--- a/src/MathUtils/VectorGeneration.h
+++ b/src/MathUtils/VectorGeneration.h
@@ -46,10 +46,13 @@ namespace mathutils {
         assert (start < stop);
         assert (step > 0.);
 
-        auto num = floor((stop-start)/step);
-        auto final_stop = num * step;
-
-        return linspace(start, final_stop, (unsigned int)num);
+        std::vector<Real> out;
+        for (unsigned long i=0; ; ++i) {
+            Real value = start + i*step;
+            if (!(value < stop)) break;
+            out.push_back(value);
+        }
+        return out;
     }
 
 
-- 
2.43.0


From d05d187f11d717619eadb558fbc61602a8c6ba15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:31 +0000
Subject: [PATCH 17/40] fix: IsSymmetric answered true for every matrix

---
 src/MathUtils/Matrix.h   | 9 +--------
 src/MathUtils/Matrix33.h | 9 +--------
 src/MathUtils/Matrix66.h | 9 +--------
 3 files changed, 3 insertions(+), 24 deletions(-)

diff --git a/src/MathUtils/Matrix.h b/src/MathUtils/Matrix.h
index eb7821f..fe37d1a 100644
--- a/src/MathUtils/Matrix.h
+++ b/src/MathUtils/Matrix.h
@@ -286,14 +286,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool MatrixMN<Scalar>::IsSymmetric() const {
-        auto a = this->isApprox(this->adjoint());
-        // FIXME: finir implementation :::
-//        auto a = (this->adjoint() == this);
-//        return this
-//        if (this->adjoint() == this) {
-//            return true;
-//        }
-        return true;
+        return IsSquare() && this->isApprox(this->adjoint());
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index e0a5002..d636313 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -279,14 +279,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix33<Scalar>::IsSymmetric() const {
-        auto a = this->isApprox(this->adjoint());
-        // FIXME: finir implementation :::
-//        auto a = (this->adjoint() == this);
-//        return this
-//        if (this->adjoint() == this) {
-//            return true;
-//        }
-        return true;
+        return this->isApprox(this->adjoint());
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index 23f2b91..cee0ea8 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -272,14 +272,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix66<Scalar>::IsSymmetric() const {
-        auto a = this->isApprox(this->adjoint());
-        // FIXME: finir implementation :::
-//        auto a = (this->adjoint() == this);
-//        return this
-//        if (this->adjoint() == this) {
-//            return true;
-//        }
-        return true;
+        return this->isApprox(this->adjoint());
     }
 
     template <class Scalar>
-- 
2.43.0


From 6c01378f89cea37a2480938e93bb4f017936f1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:31 +0000
Subject: [PATCH 18/40] fix: IsOrthogonal tests that the columns are
 orthonormal

---
 src/MathUtils/Matrix.h   | 2 +-
 src/MathUtils/Matrix33.h | 2 +-
 src/MathUtils/Matrix66.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MathUtils/Matrix.h b/src/MathUtils/Matrix.h
index fe37d1a..e6ae19b 100644
--- a/src/MathUtils/Matrix.h
+++ b/src/MathUtils/Matrix.h
@@ -306,7 +306,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool MatrixMN<Scalar>::IsOrthogonal() const {
-        return this->isOrthogonal(*this);
+        return IsSquare() && this->isUnitary();
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index d636313..9c2e50a 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -294,7 +294,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix33<Scalar>::IsOrthogonal() const {
-        return this->isOrthogonal(*this);
+        return this->isUnitary();
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index cee0ea8..a2257df 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -287,7 +287,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix66<Scalar>::IsOrthogonal() const {
-        return this->isOrthogonal(*this);
+        return this->isUnitary();
     }
 
     template <class Scalar>
-- 
2.43.0


From 78da3224f453ce384846fdf552b2bd05e8403371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:31 +0000
Subject: [PATCH 19/40] fix: Matrix66::at const was declared but not defined

---
 src/MathUtils/Matrix66.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index a2257df..d3ede21 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -197,6 +197,11 @@ namespace mathutils {
     // =================================================================================================================
     // =================================================================================================================
 
+    template <class Scalar>
+    inline Scalar Matrix66<Scalar>::at(unsigned int irow, unsigned int icol) const {
+        return this->operator()(irow, icol);
+    }
+
     template <class Scalar>
     inline Scalar& Matrix66<Scalar>::at(unsigned int irow, unsigned int icol) {
         return this->operator()(irow, icol);
-- 
2.43.0


From 412a0277ac1b79aba028f6f06a2b1e608fdd2849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:31 +0000
Subject: [PATCH 20/40] fix: SVD and pseudo-inverse of 3x3 and 6x6 matrices did
 not compile

---
 src/MathUtils/Matrix33.h | 12 ++++++------
 src/MathUtils/Matrix66.h | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index 9c2e50a..e3cbc08 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -374,7 +374,7 @@ namespace mathutils {
     template <class Scalar>
     void Matrix33<Scalar>::GetSVDDecomposition(Matrix33<Scalar>& U, Matrix33<Scalar>& S, Matrix33<Scalar>& V) const {
 
-        auto SVD = this->jacobiSvd(Eigen::ComputeThinU | Eigen::ComputeThinV);
+        auto SVD = this->jacobiSvd(Eigen::ComputeFullU | Eigen::ComputeFullV);
 
         Eigen::Matrix<Scalar, 3, 3> Utmp, Stmp, Vtmp;
 
@@ -383,7 +383,7 @@ namespace mathutils {
         U = (Matrix33<Scalar>)(Utmp);
 
         // S
-        Stmp = SVD.singularValues();
+        Stmp = SVD.singularValues().asDiagonal();
         S = (Matrix33<Scalar>)(Stmp);
 
         // V
@@ -399,14 +399,14 @@ namespace mathutils {
         GetSVDDecomposition(U, S, V);
 
         for (unsigned int i=0; i < S.rows(); ++i) {
-            if (S(i) > tol) {
-                S(i) = 1. / S(i);
+            if (S(i, i) > tol) {
+                S(i, i) = 1. / S(i, i);
             } else {
-                S(i) = 0.;
+                S(i, i) = 0.;
             }
         }
 
-        return V * S.asDiagonal() * U.adjoint();
+        return V * S * U.adjoint();
     }
 
 
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index d3ede21..62e22c3 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -372,7 +372,7 @@ namespace mathutils {
     template <class Scalar>
     void Matrix66<Scalar>::GetSVDDecomposition(Matrix66<Scalar>& U, Matrix66<Scalar>& S, Matrix66<Scalar>& V) const {
 
-        auto SVD = this->jacobiSvd(Eigen::ComputeThinU | Eigen::ComputeThinV);
+        auto SVD = this->jacobiSvd(Eigen::ComputeFullU | Eigen::ComputeFullV);
 
         Eigen::Matrix<Scalar, 6, 6> Utmp, Stmp, Vtmp;
 
@@ -381,7 +381,7 @@ namespace mathutils {
         U = (Matrix66<Scalar>)(Utmp);
 
         // S
-        Stmp = SVD.singularValues();
+        Stmp = SVD.singularValues().asDiagonal();
         S = (Matrix66<Scalar>)(Stmp);
 
         // V
@@ -397,14 +397,14 @@ namespace mathutils {
         GetSVDDecomposition(U, S, V);
 
         for (unsigned int i=0; i < S.rows(); ++i) {
-            if (S(i) > tol) {
-                S(i) = 1. / S(i);
+            if (S(i, i) > tol) {
+                S(i, i) = 1. / S(i, i);
             } else {
-                S(i) = 0.;
+                S(i, i) = 0.;
             }
         }
 
-        return V * S.asDiagonal() * U.adjoint();
+        return V * S * U.adjoint();
     }
 
 
-- 
2.43.0


From c8d6e0952dde1b7af619af696d1c844e387d93ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:31 +0000
Subject: [PATCH 21/40] fix: least squares with 3x3 and 6x6 matrices aborted on
 fixed-size thin SVD

---
 src/MathUtils/Matrix33.h | 2 +-
 src/MathUtils/Matrix66.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index e3cbc08..baebda4 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -145,7 +145,7 @@ namespace mathutils {
       // A typename has to be used because the rhs is not necessary a Matrix66.
       template<typename T>
       T LeastSquareSolver(const T& b) const {
-        return (this->bdcSvd(Eigen::ComputeThinU | Eigen::ComputeThinV).solve(b));
+        return (this->bdcSvd(Eigen::ComputeFullU | Eigen::ComputeFullV).solve(b));
       }
 
       // No LeastSquareSolverContraint because it requires the structure MatrixMN for C and d, which is not available here.
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index 62e22c3..bfd57d2 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -143,7 +143,7 @@ namespace mathutils {
       // A typename has to be used because the rhs is not necessary a Matrix66.
       template<typename T>
       T LeastSquareSolver(const T& b) const {
-        return (this->bdcSvd(Eigen::ComputeThinU | Eigen::ComputeThinV).solve(b));
+        return (this->bdcSvd(Eigen::ComputeFullU | Eigen::ComputeFullV).solve(b));
       }
 
       // No LeastSquareSolverContraint because it requires the structure MatrixMN for C and d, which is not available here.
-- 
2.43.0


From 1e5fbba2bcb9cba8279643f35854700e6af9d1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:31 +0000
Subject: [PATCH 22/40] fix: Eigenvalues of 3x3 and 6x6 matrices did not
 compile

---
 src/MathUtils/Matrix33.h | 6 +++---
 src/MathUtils/Matrix66.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index baebda4..a8cb343 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -156,7 +156,7 @@ namespace mathutils {
       // =====================================================================
 
       // This method computes the eigenvalues only.
-      Matrix33<std::complex<double>> Eigenvalues() const;
+      Eigen::Matrix<std::complex<double>, 3, 1> Eigenvalues() const;
 
     };
 
@@ -411,7 +411,7 @@ namespace mathutils {
 
 
     template <class Scalar>
-    Matrix33<std::complex<double>> Matrix33<Scalar>::Eigenvalues() const{
+    Eigen::Matrix<std::complex<double>, 3, 1> Matrix33<Scalar>::Eigenvalues() const{
 
       // This method computes the eigenvalues only.
 
@@ -421,7 +421,7 @@ namespace mathutils {
       // Object to computing eigenvalues and eigenvectors.
       Eigen::EigenSolver<Eigen::MatrixXd> es(*this, false);
 
-      return Matrix33<std::complex<double>>(es.eigenvalues());
+      return es.eigenvalues();
 
     }
 
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index bfd57d2..b28b6b3 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -154,7 +154,7 @@ namespace mathutils {
       // =====================================================================
 
       // This method computes the eigenvalues only.
-      Matrix66<std::complex<double>> Eigenvalues() const;
+      Eigen::Matrix<std::complex<double>, 6, 1> Eigenvalues() const;
 
     };
 
@@ -409,7 +409,7 @@ namespace mathutils {
 
 
   template <class Scalar>
-  Matrix66<std::complex<double>> Matrix66<Scalar>::Eigenvalues() const{
+  Eigen::Matrix<std::complex<double>, 6, 1> Matrix66<Scalar>::Eigenvalues() const{
 
     // This method computes the eigenvalues only.
 
@@ -419,7 +419,7 @@ namespace mathutils {
     // Object to computing eigenvalues and eigenvectors.
     Eigen::EigenSolver<Eigen::MatrixXd> es(*this, false);
 
-    return Matrix66<std::complex<double>>(es.eigenvalues());
+    return es.eigenvalues();
 
   }
 
-- 
2.43.0


From ab8725827eba96adc1594747f04af18f9fde7d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:13 +0000
Subject: [PATCH 23/40] fix: constrained least squares of complex systems mixed
 transpose and adjoint

---
 src/MathUtils/Matrix.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/MathUtils/Matrix.h b/src/MathUtils/Matrix.h
index e6ae19b..409dd8c 100644
--- a/src/MathUtils/Matrix.h
+++ b/src/MathUtils/Matrix.h
@@ -501,14 +501,13 @@ namespace mathutils {
         assert(b.GetNbCols() == 1);
         assert(d.GetNbCols() == 1);
 
-        // QR factorisation of transpose(C).
+        // QR factorisation of the adjoint of C (its transpose if real coefficients).
         MatrixMN<Scalar> Q, R;
-        MatrixMN<Scalar> Ct = C;
-        Ct.Transpose();
+        MatrixMN<Scalar> Ct = C.adjoint();
         Ct.GetFullQRDecomposition(Q, R);
 
-        // Solving transpose(R) * y = d.
-        R.Transpose(); // From now on, in the variable R there is the transpose of R.
+        // Solving adjoint(R) * y = d.
+        R.adjointInPlace(); // From now on, in the variable R there is the adjoint of R.
         auto y = R.LUSolver(d);
 
         // Creation of A1 and A2.
-- 
2.43.0


From 071330a0433df634daa086fa834b8efb7eb25a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:19 +0000
Subject: [PATCH 24/40] fix: selecting another integration method drops the
 result of the previous one

---
 src/MathUtils/Integration1d.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/Integration1d.h b/src/MathUtils/Integration1d.h
index d1e8c83..dc46fa4 100644
--- a/src/MathUtils/Integration1d.h
+++ b/src/MathUtils/Integration1d.h
@@ -60,7 +60,10 @@ namespace mathutils {
             c_DataSource = VECTOR;
         }
 
-        void SetIntegrationMethod(INTEGRATION_METHOD method) { m_IntegrationMethod = method; }
+        void SetIntegrationMethod(INTEGRATION_METHOD method) {
+            m_IntegrationMethod = method;
+            c_Computed = false;
+        }
 
         INTEGRATION_METHOD GetIntegrationMethod() const { return m_IntegrationMethod; }
 
-- 
2.43.0


From a0e2c82a52777745e76a92c6950b0e04eef9f15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:19 +0000
Subject: [PATCH 25/40] fix: Trapz with the default step or a constant step did
 not compile

---
 src/MathUtils/Integration1d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/Integration1d.h b/src/MathUtils/Integration1d.h
index dc46fa4..40b5ff0 100644
--- a/src/MathUtils/Integration1d.h
+++ b/src/MathUtils/Integration1d.h
@@ -152,7 +152,7 @@ namespace mathutils {
     // =================================================================================================================
 
     template <class Scalar>
-    Scalar Trapz(const std::vector<Scalar>& y, Scalar& dx=1.) { // TODO: voir a utiliser cette fonction dans la classe ci-dessus
+    Scalar Trapz(const std::vector<Scalar>& y, const Scalar& dx=Scalar(1.)) { // TODO: voir a utiliser cette fonction dans la classe ci-dessus
         // This is the particular case where we have a constant step size between samples
         // Simplification is worth a new implementation
 
-- 
2.43.0


From fa26b35f053c55dc5aa80b1b42731292452f2b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:19 +0000
Subject: [PATCH 26/40] fix: integrands and 2D integrations owned through their
 base class get a virtual destructor

---
 src/MathUtils/Integrand.h     | 2 ++
 src/MathUtils/Integration2d.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/MathUtils/Integrand.h b/src/MathUtils/Integrand.h
index c37d7e4..cdc2c80 100644
--- a/src/MathUtils/Integrand.h
+++ b/src/MathUtils/Integrand.h
@@ -15,6 +15,8 @@ namespace mathutils {
 
    public:
 
+    virtual ~Integrand() = default;
+
     /// This function evalutes the integrand at the point x.
     virtual T Evaluate(const Vector3d<double> &x) const = 0;
 
diff --git a/src/MathUtils/Integration2d.h b/src/MathUtils/Integration2d.h
index aedea21..ba64f96 100644
--- a/src/MathUtils/Integration2d.h
+++ b/src/MathUtils/Integration2d.h
@@ -25,6 +25,8 @@ namespace mathutils {
       m_tables = std::make_unique<QuadratureTables>();
     }
 
+    virtual ~Integration2d() = default;
+
     /// This function computes the 2d integration.
     virtual T Compute(const Vector3d<double> &vertex_1, const Vector3d<double> &vertex_2,
                          const Vector3d<double> &vertex_3) const = 0;
-- 
2.43.0


From 43b78e89d194bb79f38d188f59237ba924c3fad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:03 +0000
Subject: [PATCH 27/40] fix: angles recovered from a matrix close to vertical
 pitch did not rebuild the rotation

---
 src/MathUtils/Geometry.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/Geometry.h b/src/MathUtils/Geometry.h
index 1ad4906..0e21c96 100644
--- a/src/MathUtils/Geometry.h
+++ b/src/MathUtils/Geometry.h
@@ -42,7 +42,10 @@ namespace mathutils {
     euler_angles(0) = atan2(R(2, 1), R(2, 2));
     euler_angles(1) = -atan2(R(2, 0),
                              sqrt(pow(R(2, 1), 2.0) + pow(R(2, 2), 2.0)));
-    euler_angles(2) = atan2(R(1, 0), R(0, 0));
+    // The yaw angle is the one which goes with this roll angle: at vertical pitch only their sum or difference is defined.
+    double sr = sin(euler_angles(0));
+    double cr = cos(euler_angles(0));
+    euler_angles(2) = atan2(sr * R(0, 2) - cr * R(0, 1), cr * R(1, 1) - sr * R(1, 2));
     return euler_angles;
   }
 
-- 
2.43.0


From d8c8fece9b2d0dfcb6d7e4f43e396ba27dc8be46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:03 +0000
Subject: [PATCH 28/40] fix: angles recovered from a quaternion at vertical
 pitch were NaN or another rotation

---
 src/MathUtils/Geometry.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/MathUtils/Geometry.h b/src/MathUtils/Geometry.h
index 0e21c96..e4c4da4 100644
--- a/src/MathUtils/Geometry.h
+++ b/src/MathUtils/Geometry.h
@@ -9,17 +9,13 @@
 
 namespace mathutils {
 
+  inline Eigen::Vector3d rotationMatrixToEulerAnglesZYX(const Eigen::Matrix3d& R);
+
+  inline Eigen::Matrix3d quaternionToRotationMatrix(const Eigen::Quaterniond& q);
+
   inline Eigen::Vector3d quaternionToEulerAnglesZYX(const Eigen::Quaterniond& q)
   {
-    Eigen::Vector3d euler_angles;
-    euler_angles(0) = atan2(
-        2.0 * q.w() * q.x() + 2.0 * q.y() * q.z(),
-        q.w() * q.w() - q.x() * q.x() - q.y() * q.y() + q.z() * q.z());
-    euler_angles(1) = -asin(2.0 * q.x() * q.z() - 2.0 * q.w() * q.y());
-    euler_angles(2) = atan2(
-        2.0 * q.w() * q.z() + 2.0 * q.x() * q.y(),
-        q.w() * q.w() + q.x() * q.x() - q.y() * q.y() - q.z() * q.z());
-    return euler_angles;
+    return rotationMatrixToEulerAnglesZYX(quaternionToRotationMatrix(q));
   }
 
   inline Eigen::Quaterniond eulerAnglesZYXToQuaternion(
-- 
2.43.0


From 8a11c7adfad6a42afba078e2908a98e37866dd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:19 +0000
Subject: [PATCH 29/40] fix: computing the coefficients of a Chebyshev series
 again accumulated on the previous ones

---
 src/MathUtils/ChebyshevSeries1d.h | 1 +
 src/MathUtils/ChebyshevSeries2d.h | 1 +
 src/MathUtils/ChebyshevSeries3d.h | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/MathUtils/ChebyshevSeries1d.h b/src/MathUtils/ChebyshevSeries1d.h
index 845bac6..33d6fac 100644
--- a/src/MathUtils/ChebyshevSeries1d.h
+++ b/src/MathUtils/ChebyshevSeries1d.h
@@ -57,6 +57,7 @@ namespace mathutils {
       // aij.
       // The Clenshaw algorithm cannot be used as x_tilde and y_tilde depend on r and s.
       for (int i = 0; i <= m_order_x; ++i) {
+        m_ai(i) = 0.;
         for (int r = 0; r <= m_order_x; ++r) {
           double Ti = Chebyshev_polynomial(i, x_tilde.at(r));
           m_ai(i) += this->m_function->Evaluate(x.at(r)) * Ti;
diff --git a/src/MathUtils/ChebyshevSeries2d.h b/src/MathUtils/ChebyshevSeries2d.h
index eb3b21a..af24520 100644
--- a/src/MathUtils/ChebyshevSeries2d.h
+++ b/src/MathUtils/ChebyshevSeries2d.h
@@ -70,6 +70,7 @@ namespace mathutils {
       // The Clenshaw algorithm cannot be used as x_tilde and y_tilde depend on r and s.
       for (int i = 0; i <= m_order_x; ++i) {
         for (int j = 0; j <= m_order_y; ++j) {
+          m_aij(i, j) = 0.;
           for (int r = 0; r <= m_order_x; ++r) {
             double Ti = Chebyshev_polynomial(i, x_tilde.at(r));
             for (int s = 0; s <= m_order_y; ++s) {
diff --git a/src/MathUtils/ChebyshevSeries3d.h b/src/MathUtils/ChebyshevSeries3d.h
index 3369ba8..9dbc78b 100644
--- a/src/MathUtils/ChebyshevSeries3d.h
+++ b/src/MathUtils/ChebyshevSeries3d.h
@@ -83,6 +83,7 @@ namespace mathutils {
       for (int i = 0; i <= m_order_x; ++i) {
         for (int j = 0; j <= m_order_y; ++j) {
           for (int k = 0; k <= m_order_z; ++k) {
+            m_aijk.at(k)(i, j) = 0.;
             for (int r = 0; r <= m_order_x; ++r) {
               double xtilde = x_tilde.at(r);
               double Ti = Chebyshev_polynomial(i, xtilde);
-- 
2.43.0


From 4a4fecb7140dd837091902f3897ab447da9d61da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:19 +0000
Subject: [PATCH 30/40] fix: y-derivative at a predefined z was scaled with x
 instead of y on a half-line

---
 src/MathUtils/PowerSeries3d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/PowerSeries3d.h b/src/MathUtils/PowerSeries3d.h
index d085734..c7ac335 100644
--- a/src/MathUtils/PowerSeries3d.h
+++ b/src/MathUtils/PowerSeries3d.h
@@ -436,7 +436,7 @@ namespace mathutils {
       double xunit = AffineTransformationSegmentToUnit_x(x);
       double yunit = AffineTransformationSegmentToUnit_y(y);
 
-      return Evaluate_derivative_y_unit_zunit_predefined(x, xunit, yunit, cij);
+      return Evaluate_derivative_y_unit_zunit_predefined(y, xunit, yunit, cij);
 
     }
 
-- 
2.43.0


From de1544500472540f56f96967a6105654ea21289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:19 +0000
Subject: [PATCH 31/40] fix: functions and series owned through their base
 class get a virtual destructor

---
 src/MathUtils/ChebyshevSeries1d.h | 4 ++++
 src/MathUtils/ChebyshevSeries2d.h | 4 ++++
 src/MathUtils/ChebyshevSeries3d.h | 4 ++++
 src/MathUtils/PowerSeries1d.h     | 2 ++
 src/MathUtils/PowerSeries2d.h     | 2 ++
 src/MathUtils/PowerSeries3d.h     | 2 ++
 6 files changed, 18 insertions(+)

diff --git a/src/MathUtils/ChebyshevSeries1d.h b/src/MathUtils/ChebyshevSeries1d.h
index 33d6fac..65d9217 100644
--- a/src/MathUtils/ChebyshevSeries1d.h
+++ b/src/MathUtils/ChebyshevSeries1d.h
@@ -19,6 +19,8 @@ namespace mathutils {
 
    public:
 
+    virtual ~Function1d() = default;
+
     /// This function evaluates the function at the point x.
     virtual T Evaluate(const double &x) const = 0;
 
@@ -32,6 +34,8 @@ namespace mathutils {
 
    public:
 
+    virtual ~ChebyshevSeries1dBase() = default;
+
     /// Contructor of the class.
     ChebyshevSeries1dBase(Function1d<T> *F, const double &xmin, const int &order_x) : m_function(F), m_x_min(xmin),
                           m_order_x(order_x) {
diff --git a/src/MathUtils/ChebyshevSeries2d.h b/src/MathUtils/ChebyshevSeries2d.h
index af24520..a01646d 100644
--- a/src/MathUtils/ChebyshevSeries2d.h
+++ b/src/MathUtils/ChebyshevSeries2d.h
@@ -19,6 +19,8 @@ namespace mathutils {
 
    public:
 
+    virtual ~Function2d() = default;
+
     /// This function evaluates the function at the point (x, y).
     virtual T Evaluate(const double &x, const double &y) const = 0;
 
@@ -32,6 +34,8 @@ namespace mathutils {
 
    public:
 
+    virtual ~ChebyshevSeries2dBase() = default;
+
     /// Contructor of the class.
     ChebyshevSeries2dBase(Function2d<T> *F, const double &xmin, const double &ymin, const int &order_x,
                                     const int &order_y) : m_function(F), m_x_min(xmin), m_y_min(ymin),
diff --git a/src/MathUtils/ChebyshevSeries3d.h b/src/MathUtils/ChebyshevSeries3d.h
index 9dbc78b..0457410 100644
--- a/src/MathUtils/ChebyshevSeries3d.h
+++ b/src/MathUtils/ChebyshevSeries3d.h
@@ -19,6 +19,8 @@ namespace mathutils {
 
    public:
 
+    virtual ~Function3d() = default;
+
     /// This function evaluates the function at the point (x, y, z).
     virtual T Evaluate(const double &x, const double &y, const double &z) const = 0;
 
@@ -32,6 +34,8 @@ namespace mathutils {
 
    public:
 
+    virtual ~ChebyshevSeries3dBase() = default;
+
     /// Contructor of the class.
     ChebyshevSeries3dBase(Function3d<T> *F, const double &xmin, const double &ymin, const double &zmin,
                                     const int &order_x, const int &order_y, const int &order_z) : m_function(F),
diff --git a/src/MathUtils/PowerSeries1d.h b/src/MathUtils/PowerSeries1d.h
index f4c87a5..a016882 100644
--- a/src/MathUtils/PowerSeries1d.h
+++ b/src/MathUtils/PowerSeries1d.h
@@ -19,6 +19,8 @@ namespace mathutils {
 
    public:
 
+    virtual ~PowerSeries1dBase() = default;
+
     /// Contructor of the class.
     PowerSeries1dBase(const VectorN<T> &bi, const double &xmin) : m_bi(bi), m_x_min(xmin) {
       m_order_x = bi.rows() - 1;
diff --git a/src/MathUtils/PowerSeries2d.h b/src/MathUtils/PowerSeries2d.h
index 1f7a1ce..aa381b3 100644
--- a/src/MathUtils/PowerSeries2d.h
+++ b/src/MathUtils/PowerSeries2d.h
@@ -19,6 +19,8 @@ namespace mathutils {
 
    public:
 
+    virtual ~PowerSeries2dBase() = default;
+
     /// Contructor of the class.
     PowerSeries2dBase(const MatrixMN <T> &bij, const double &xmin, const double &ymin) : m_bij(bij),
                                  m_x_min(xmin), m_y_min(ymin) {
diff --git a/src/MathUtils/PowerSeries3d.h b/src/MathUtils/PowerSeries3d.h
index c7ac335..1db6869 100644
--- a/src/MathUtils/PowerSeries3d.h
+++ b/src/MathUtils/PowerSeries3d.h
@@ -19,6 +19,8 @@ namespace mathutils {
 
    public:
 
+    virtual ~PowerSeries3dBase() = default;
+
     /// Contructor of the class.
     PowerSeries3dBase(const std::vector<MatrixMN <T>> &bijk, const double &xmin, const double &ymin, const double &zmin)
     : m_bijk(bijk), m_x_min(xmin), m_y_min(ymin), m_z_min(zmin) {
-- 
2.43.0


From 36a8ec31d5f59d1745fca5c2f49d80d3b3577872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:32 +0000
Subject: [PATCH 32/40] fix: Horner_derivative did not accept constant or
 temporary coefficients

---
 src/MathUtils/Polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/Polynomial.h b/src/MathUtils/Polynomial.h
index 7b27f27..006a5f1 100644
--- a/src/MathUtils/Polynomial.h
+++ b/src/MathUtils/Polynomial.h
@@ -27,7 +27,7 @@ namespace mathutils {
   }
 
   template<typename T>
-  T Horner_derivative(std::vector<double>& coefficients, const T& x0) {
+  T Horner_derivative(const std::vector<double>& coefficients, const T& x0) {
 
     /// This method evaluates the derivative of a polynomial at x0 using the Horner's method.
 
-- 
2.43.0


From 622eb5f983d3daa80cbff8c25d23bfc28d73db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:47 +0000
Subject: [PATCH 33/40] fix: mistyped coefficients of the Cody-Thacher
 approximations of Ei and E1

---
 src/MathUtils/BoostFunctions.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/MathUtils/BoostFunctions.h b/src/MathUtils/BoostFunctions.h
index 98406a8..50ee849 100644
--- a/src/MathUtils/BoostFunctions.h
+++ b/src/MathUtils/BoostFunctions.h
@@ -289,7 +289,7 @@ namespace mathutils {
                                     1.052976392459015155422e1,
                                     -2.421106956980653511550e1,
                                     -2.378372882815725244124e0,
-                                    -2.645977793077147237806e0};
+                                    -2.645677793077147237806e0};
       std::vector<double> betaj = {1.249884822712447891440e0,
                                    -2.369210235636181001661e2,
                                    4.731097187816050252967e2,
@@ -484,11 +484,11 @@ namespace mathutils {
       std::vector<double> pj = {1.737331760720576030932e-8,
                                 9.999989642347613068437e-1,
                                 1.487967702840464066613e1,
-                                7.633628873405946890896e1,
+                                7.633628843705946890896e1,
                                 1.698106763764238382705e2,
                                 1.700632978311516129328e2,
                                 7.246689782858597021199e1,
-                                1.10732662778631743809e1,
+                                1.107326627786831743809e1,
                                 3.828573121022477169108e-1};
       std::vector<double> qj = {1.000000000000000000000e0,
                                 1.587964570758947927903e1,
@@ -530,11 +530,11 @@ namespace mathutils {
                                 5.4199632588522559414924e1,
                                 1.1635769915320848035459e3,
                                 1.2842808586627297365998e4,
-                                7.9231787645279043698718e4,
+                                7.9231787945279043698718e4,
                                 2.7858134710520842139357e5,
                                 5.4616842050691155735758e5,
                                 5.5903756210022864003380e5,
-                                5.5989762083608489777411e5,
+                                2.5989762083608489777411e5,
                                 3.9147856245556345627078e4};
       assert (pj.size() == qj.size());
 
-- 
2.43.0


From 740c8117c845348fee0d11fffaed90de5758b1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:09 +0000
Subject: [PATCH 34/40] fix: Negate did not compile for vectors other than
 double

---
 src/MathUtils/StdVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/StdVector.h b/src/MathUtils/StdVector.h
index d82a3d4..1419517 100644
--- a/src/MathUtils/StdVector.h
+++ b/src/MathUtils/StdVector.h
@@ -95,7 +95,7 @@ namespace mathutils {
 
     template <class Scalar>
     inline void Negate(std::vector<Scalar>& v) {
-        Scale(v, -1.);
+        Scale(v, Scalar(-1));
     }
 
 }
-- 
2.43.0


From 696538cd0cd85c463db2ffed8858a1ff124f07ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:09 +0000
Subject: [PATCH 35/40] fix: derivatives of the Bessel functions J and I of
 order 1 and above were NaN at zero

---
 src/MathUtils/BoostFunctions.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/MathUtils/BoostFunctions.h b/src/MathUtils/BoostFunctions.h
index 50ee849..8291253 100644
--- a/src/MathUtils/BoostFunctions.h
+++ b/src/MathUtils/BoostFunctions.h
@@ -7,6 +7,7 @@
 
 #include "StdVector.h"
 #include <boost/math/special_functions/bessel.hpp>
+#include <boost/math/special_functions/bessel_prime.hpp>
 #include <boost/math/special_functions/hankel.hpp>
 #include <boost/math/special_functions/legendre.hpp>
 #include <boost/math/special_functions/factorials.hpp>
@@ -31,7 +32,7 @@ namespace mathutils {
     if(order == 0) {
       return -boost::math::cyl_bessel_j(1, x); // J0' = -J1.
     } else {
-      return boost::math::cyl_bessel_j(order - 1, x) - (order / x) * boost::math::cyl_bessel_j(order, x);
+      return boost::math::cyl_bessel_j_prime(order, x);
     }
   }
 
@@ -63,7 +64,7 @@ namespace mathutils {
     if(order == 0) {
       return boost::math::cyl_bessel_i(1, x); // I0' = I1.
     } else {
-      return boost::math::cyl_bessel_i(order - 1, x) - (order / x) * boost::math::cyl_bessel_i(order, x);
+      return boost::math::cyl_bessel_i_prime(order, x);
     }
   }
 
-- 
2.43.0


From 99e4733b7edc585601a34f27867052995d0e0846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:40 +0000
Subject: [PATCH 36/40] fix: Saturate rounded wide integers and long doubles
 through double

---
 src/MathUtils/Maths.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/Maths.h b/src/MathUtils/Maths.h
index d14ae07..0747899 100644
--- a/src/MathUtils/Maths.h
+++ b/src/MathUtils/Maths.h
@@ -14,7 +14,7 @@ namespace mathutils {
 
     template <class Scalar>
     inline Scalar Saturate(Scalar val, Scalar valMin, Scalar valMax) {
-        double valout = (val > valMax) ?  valMax : val;
+        Scalar valout = (val > valMax) ?  valMax : val;
         valout  = (valout<valMin) ? valMin : valout;
         return valout;
     }
-- 
2.43.0


From d2f54f9bad291672aff1b5578bd7cda9341acc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:40 +0000
Subject: [PATCH 37/40] fix: Amplitude overflowed or underflowed for magnitudes
 whose square is not representable

---
 src/MathUtils/Complex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/Complex.h b/src/MathUtils/Complex.h
index e92abbd..ae866bb 100644
--- a/src/MathUtils/Complex.h
+++ b/src/MathUtils/Complex.h
@@ -35,7 +35,7 @@ namespace mathutils {
         for (unsigned long i=0; i<n; i++) {
             x = vector[i].real();
             y = vector[i].imag();
-            out[i] = sqrt(x*x + y*y);
+            out[i] = std::hypot(x, y);
         }
         return out;
     }
-- 
2.43.0


From d9c8ec0e36fe3bf3430b0c946a040137688072a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:07 +0000
Subject: [PATCH 38/40] fix: Normalize__180_180 overflowed for integer angles
 next to the largest one

---
 src/MathUtils/Angles.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/Angles.h b/src/MathUtils/Angles.h
index ba57533..ccd2e3b 100644
--- a/src/MathUtils/Angles.h
+++ b/src/MathUtils/Angles.h
@@ -51,7 +51,7 @@ namespace mathutils {
   /// Normalizes angles to ]-180, 180]
   template<class Real>
   inline Real Normalize__180_180(const Real a) {
-    Real angle = modulo360(a + 180);
+    Real angle = modulo360(modulo360(a) + 180); // reduced first: a + 180 may not be representable (integers)
     if (angle <= 0) {
       angle += 360;
     }
-- 
2.43.0


From 7a9084128ffbdda7dc85f2074c0d34a854079507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:54 +0000
Subject: [PATCH 39/40] fix: discontinuous interpolators accepted arrays too
 short for their 2^N values per node

---
 src/MathUtils/thirdparty/linterp.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/MathUtils/thirdparty/linterp.h b/src/MathUtils/thirdparty/linterp.h
index 2145eec..7e7ca9b 100644
--- a/src/MathUtils/thirdparty/linterp.h
+++ b/src/MathUtils/thirdparty/linterp.h
@@ -148,20 +148,18 @@ class NDInterpolator {
   // assumes that [f_begin, f_end) is a contiguous array in C-order  
   template<class IterT>
   void set_f_array(IterT f_begin, IterT f_end, bool bCopy) {
-    unsigned int nGridPoints = 1;
+    unsigned int nValues = 1;
     array<int, N> sizes;
     for (unsigned int i = 0; i < m_grid_list.size(); i++) {
       sizes[i] = m_grid_list[i].size();
-      nGridPoints *= sizes[i];
+      if (!m_bContinuous) { sizes[i] *= 2; }  // values before and after each grid point
+      nValues *= sizes[i];
     }
 
     int f_len = f_end - f_begin;
-    if ((m_bContinuous && f_len != nGridPoints) || (!m_bContinuous && f_len != 2 * nGridPoints)) {
+    if (f_len != nValues) {
       throw std::invalid_argument("f has wrong size");
     }
-    for (unsigned int i = 0; i < m_grid_list.size(); i++) {
-      if (!m_bContinuous) { sizes[i] *= 2; }
-    }
 
     m_F_copy.clear();
     if (bCopy == false) {
-- 
2.43.0


From 8c3b2541bc677a05e1d292e9d842e8cc6501333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:54 +0000
Subject: [PATCH 40/40] fix: constructing an interpolator with reference counts
 did not compile

---
 src/MathUtils/thirdparty/linterp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/thirdparty/linterp.h b/src/MathUtils/thirdparty/linterp.h
index 7e7ca9b..44202ec 100644
--- a/src/MathUtils/thirdparty/linterp.h
+++ b/src/MathUtils/thirdparty/linterp.h
@@ -139,7 +139,7 @@ class NDInterpolator {
     }
   }
 
-  template<class IterT1, class RefCountIterT>
+  template<class RefCountIterT>
   void set_grids_refcount(RefCountIterT refs_begin, RefCountIterT refs_end) {
     assert(refs_end - refs_begin == N);
     m_grid_ref_list.assign(refs_begin, refs_begin + N);
-- 
2.43.0

