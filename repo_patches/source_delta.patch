From 85ed2db7326dfe300856ec32f533688d4f403322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:31 +0000
Subject: [PATCH 01/37] fix: GSL stepper accepts steps whose error estimate
 exceeds the tolerance

gsl_odeiv2_control_hadjust reporting HADJ_DEC means that the step just taken must be
rejected and repeated with the decreased step size, but its return value was ignored.
---
 CPPQEDutils/ODE_GSL.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/CPPQEDutils/ODE_GSL.h b/CPPQEDutils/ODE_GSL.h
index cad3086..27eaf27 100644
--- a/CPPQEDutils/ODE_GSL.h
+++ b/CPPQEDutils/ODE_GSL.h
@@ -66,7 +66,11 @@ public:
     
     gsl_odeiv2_system dydt{ControlledErrorStepperGSL::lowLevelSystemFunction,nullptr,totalExtent,&aux};
     
-    auto step_status = gsl_odeiv2_step_apply (step_.get(), time, dtTry, Data<StateType>::_(stateInOut), yerr_->data(), nullptr, dydt_out_->data(), &dydt);
+    auto y = Data<StateType>::_(stateInOut);
+
+    const ValueVector y0(y,y+totalExtent); // to be restored if the step has to be rejected
+
+    auto step_status = gsl_odeiv2_step_apply (step_.get(), time, dtTry, y, yerr_->data(), nullptr, dydt_out_->data(), &dydt);
     
     if (step_status == GSL_EFAULT || step_status == GSL_EBADFUNC) throw std::runtime_error("GSL bad step_status");
 
@@ -75,10 +79,13 @@ public:
       return bno::fail;
     }
     else {
-      time+=dtTry;
-      /* const auto hadjust_status = */
-      gsl_odeiv2_control_hadjust (control_.get(), step_.get(), Data<StateType>::_(stateInOut), yerr_->data(), dydt_out_->data(), &dtTry);
-      // if (hadjust_status == GSL_ODEIV_HADJ_DEC) throw std::runtime_error{"Unexpected change of dtTry in ControlledErrorStepperGSL::tryStep"};
+      const double dtDid=dtTry;
+      const auto hadjust_status = gsl_odeiv2_control_hadjust (control_.get(), step_.get(), y, yerr_->data(), dydt_out_->data(), &dtTry);
+      if (hadjust_status == GSL_ODEIV_HADJ_DEC && std::abs(dtTry)<std::abs(dtDid) && time+dtTry!=time) { // error above tolerance: the step must be repeated with the decreased dtTry
+        std::copy(y0.begin(),y0.end(),y);
+        return bno::fail;
+      }
+      time+=dtDid;
       return bno::success;
     }
   }
-- 
2.43.0


From 90013f8634d4e8dab3dc7f399cca7518a2b838e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:31 +0000
Subject: [PATCH 02/37] fix: truncated state record silently read as if padded
 with zeros

---
 CPPQEDutils/Trajectory.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CPPQEDutils/Trajectory.h b/CPPQEDutils/Trajectory.h
index bc60033..9f40ab2 100644
--- a/CPPQEDutils/Trajectory.h
+++ b/CPPQEDutils/Trajectory.h
@@ -398,8 +398,10 @@ void readViaSStream(Trajectory& traj, std::shared_ptr<std::istream> ifs)
   istringstream iss(ios_base::binary);
   {
     string buffer;
-    streamsize n; *ifs>>n; buffer.resize(n);
-    ifs->read(&buffer[0],n);
+    streamsize n; 
+    if (!(*ifs>>n) || n<0) throw runtime_error("State record size cannot be read in cppqedutils::trajectory::readViaSStream");
+    buffer.resize(n);
+    if (!ifs->read(&buffer[0],n)) throw runtime_error("Truncated state record in cppqedutils::trajectory::readViaSStream");
     iss.str(buffer);
   }
   iarchive stateArchive(iss);
-- 
2.43.0


From 22791845631fdfebf5c8d06259597de7d805d9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:37 +0000
Subject: [PATCH 03/37] fix: StateVector::trace returned the norm instead of
 its square

For an unnormalised vector (e.g. the slices over which composite averages and jump rates are
summed) this differs from the trace of the corresponding density operator.
---
 CPPQEDcore/quantumdata/StateVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumdata/StateVector.h b/CPPQEDcore/quantumdata/StateVector.h
index f637880..57640f3 100644
--- a/CPPQEDcore/quantumdata/StateVector.h
+++ b/CPPQEDcore/quantumdata/StateVector.h
@@ -191,7 +191,7 @@ public:
 private:
   const dcomp index(const Idx& i, const Idx& j) const override {return getArray()(i)*conj(getArray()(j));} ///< This function implements the LazyDensityOperator interface in a dyadic-product way.
   
-  double trace_v() const override {return norm();} ///< A straightforward implementation of a LazyDensityOperator virtual
+  double trace_v() const override {return cppqedutils::sqr(norm());} ///< A straightforward implementation of a LazyDensityOperator virtual
   
 };
 
-- 
2.43.0


From 75f3f02f4ec5fe66370fabf9eaa8d11798b03d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:37 +0000
Subject: [PATCH 04/37] fix: densityOperatorize could not be instantiated for
 arity larger than one

---
 CPPQEDcore/quantumdata/DensityOperator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumdata/DensityOperator.h b/CPPQEDcore/quantumdata/DensityOperator.h
index 1368404..52aec1f 100644
--- a/CPPQEDcore/quantumdata/DensityOperator.h
+++ b/CPPQEDcore/quantumdata/DensityOperator.h
@@ -239,7 +239,7 @@ template<int RANK>
 DensityOperator<RANK>
 densityOperatorize(const LazyDensityOperator<RANK>& matrix)
 {
-  DensityOperator<RANK> res(matrix.getDimension());
+  DensityOperator<RANK> res(matrix.getDimensions());
   
   typedef cppqedutils::MultiIndexIterator<RANK> Iterator;
   const Iterator etalon(matrix.getDimensions()-1,cppqedutils::mii::begin);
-- 
2.43.0


From a6023ade1b0cfb2a5a089ca60974f3edcaf9843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:37 +0000
Subject: [PATCH 05/37] fix: unary plus and minus of StateVector and
 DensityOperator did not compile

---
 CPPQEDcore/quantumdata/ArrayBase.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/quantumdata/ArrayBase.h b/CPPQEDcore/quantumdata/ArrayBase.h
index e608d79..4091471 100644
--- a/CPPQEDcore/quantumdata/ArrayBase.h
+++ b/CPPQEDcore/quantumdata/ArrayBase.h
@@ -57,8 +57,8 @@ public:
   Derived& operator+=(const ArrayBase& arrayBase) {arrayLow_+=arrayBase.arrayLow_; return static_cast<Derived&>(*this);}
   Derived& operator-=(const ArrayBase& arrayBase) {arrayLow_-=arrayBase.arrayLow_; return static_cast<Derived&>(*this);}
 
-  Derived operator-() const {Derived res(this->getDimensions(),false); res.getArray()=-this->getArray(); return res;} ///< involves a deep-copy
-  Derived operator+() const {return *this;} ///< simply deep copy
+  Derived operator-() const {Derived res(static_cast<const Derived&>(*this)); res*=-1.; return res;} ///< involves a deep-copy
+  Derived operator+() const {return static_cast<const Derived&>(*this);} ///< simply deep copy
   //@}
 
   /// \name Naive vector-space operations allowing also for mixed-mode arithmetics
-- 
2.43.0


From 159e8dd2d27ce9281eecb4418d70589bd20f0526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:38 +0000
Subject: [PATCH 06/37] fix: wrong trace of non-contiguous (sliced) multi-ary
 density operators

---
 CPPQEDcore/quantumdata/DensityOperator.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/CPPQEDcore/quantumdata/DensityOperator.h b/CPPQEDcore/quantumdata/DensityOperator.h
index 52aec1f..9565e49 100644
--- a/CPPQEDcore/quantumdata/DensityOperator.h
+++ b/CPPQEDcore/quantumdata/DensityOperator.h
@@ -161,9 +161,14 @@ public:
   //@{
   double norm() const ///< returns the trace norm
   {
-    using blitz::tensor::i;
-    const linalg::CMatrix m(matrixView());
-    return real(sum(m(i,i)));
+    // matrixView cannot be used here, as the storage is not contiguous for slices of multi-ary density operators
+    double res=0.;
+    if (this->getTotalDimension()) {
+      typedef cppqedutils::MultiIndexIterator<RANK> Iterator;
+      const Iterator etalon(this->getDimensions()-1,cppqedutils::mii::begin);
+      for (Iterator i(etalon); i!=etalon.getEnd(); ++i) res+=real(indexWithTiny(*i,*i));
+    }
+    return res;
   }
 
   double renorm() ///< ” and also renormalises
-- 
2.43.0


From f587d3459bd84bff5824dbb1346da9856c5885bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:35 +0000
Subject: [PATCH 07/37] fix: direct product of two Sigma operators did not
 compile unless their right indices agreed

---
 CPPQEDcore/quantumoperator/Sigma.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumoperator/Sigma.h b/CPPQEDcore/quantumoperator/Sigma.h
index 02ba774..36825c8 100644
--- a/CPPQEDcore/quantumoperator/Sigma.h
+++ b/CPPQEDcore/quantumoperator/Sigma.h
@@ -131,7 +131,7 @@ template<int L1, int R1, int L2, int R2>
 const DirectProduct<L1,R1,Sigma<L2,R2>,true>
 operator*(const Sigma<L1,R1>&, const Sigma<L2,R2>& sigma)
 {
-  return DirectProduct<L1,R2,Sigma<L2,R2>,true>(sigma);
+  return DirectProduct<L1,R1,Sigma<L2,R2>,true>(sigma);
 }
 
 
-- 
2.43.0


From c61e8ed24ad788ef8fa6679d0ab6f1eaf242edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:25 +0000
Subject: [PATCH 08/37] fix: direct product of Tridiagonals lost the
 frequencies whenever one of the factors contributed its main diagonal or had
 no frequencies

---
 CPPQEDcore/quantumoperator/Tridiagonal.tcc | 34 +++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumoperator/Tridiagonal.tcc b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
index bf70e3f..ffd3bab 100644
--- a/CPPQEDcore/quantumoperator/Tridiagonal.tcc
+++ b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
@@ -55,6 +55,38 @@ directDiagonals(const typename Tridiagonal<RANK1>::Diagonals& ds1,
 } // NEEDS_WORK this is now runtime, but (a smaller) part of it could be done compile-time. Ugh. Ouch.
 
 
+/// The frequencies of diagonal `ind` of `t`: if none are stored for an existing diagonal (or its transpose), then its elements do not depend on time, that is, the frequencies are zero
+template<int RANK>
+const typename Tridiagonal<RANK>::Diagonal
+frequenciesOfDiagonal(const Tridiagonal<RANK>& t, size_t ind)
+{
+  if (t.getFreqs()(ind).size()) return t.getFreqs()(ind);
+
+  size_t transposed=0;
+  for (size_t rest=ind, threeToK=1; rest; rest/=3, threeToK*=3) transposed+=((3-rest%3)%3)*threeToK;
+
+  const auto& diagonal=t.get()(t.get()(ind).size() ? ind : transposed);
+  typename Tridiagonal<RANK>::Diagonal res(diagonal.shape());
+  if (res.size()) res=0.;
+  return res;
+}
+
+
+template<int RANK1, int RANK2>
+const typename Tridiagonal<RANK1+RANK2>::Diagonals
+directFrequencies(const Tridiagonal<RANK1>& t1, const Tridiagonal<RANK2>& t2)
+{
+  typename Tridiagonal<RANK1+RANK2>::Diagonals res;
+  size_t length=t2.getFreqs().numElements();
+
+  for (size_t i=0; i<t1.getFreqs().numElements(); ++i) for (size_t j=0; j<length; ++j)
+    if (t1.getFreqs()(i).size() || t2.getFreqs()(j).size())
+      res(i*length+j).reference(blitzplusplus::doDirect<false,RANK1,RANK2>(frequenciesOfDiagonal(t1,i),frequenciesOfDiagonal(t2,j)));
+
+  return res;
+}
+
+
 } // details
 
 
@@ -64,7 +96,7 @@ Tridiagonal<RANK>::Tridiagonal(const Tridiagonal<RANK2>& t1, const Tridiagonal<R
     diagonals_(blitzplusplus::ShallowCopy(),details::directDiagonals<true,RANK2,RANK-RANK2>(t1.get(),t2.get())),
     differences_(blitzplusplus::concatenateTinies(t1.getDifferences(),t2.getDifferences())),
     tCurrent_(t1.getTime()),
-    freqs_(blitzplusplus::ShallowCopy(),details::directDiagonals<false,RANK2,RANK-RANK2>(t1.getFreqs(),t2.getFreqs()))
+    freqs_(blitzplusplus::ShallowCopy(),details::directFrequencies<RANK2,RANK-RANK2>(t1,t2))
 {
   if (t1.getTime()!=t2.getTime()) throw std::runtime_error("Tridiagonal time mismatch");
 }
-- 
2.43.0


From 766cb04f63580b861e87cfcfc0bb59308f4036e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:25 +0000
Subject: [PATCH 09/37] fix: addition of Tridiagonals accepted partially
 different frequencies

---
 CPPQEDcore/quantumoperator/Tridiagonal.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumoperator/Tridiagonal.tcc b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
index ffd3bab..cc37c95 100644
--- a/CPPQEDcore/quantumoperator/Tridiagonal.tcc
+++ b/CPPQEDcore/quantumoperator/Tridiagonal.tcc
@@ -168,7 +168,7 @@ Tridiagonal<RANK>::operator+=(const Tridiagonal& tridiag)
   
   boost::for_each(tridiag.freqs_,freqs_,[](const typename Tridiagonal<RANK>::Diagonal& from, typename Tridiagonal<RANK>::Diagonal& to) {
     if (from.size()) {
-      if (to.size() && all(to!=from)) throw std::runtime_error("Tridiagonal structure mismatch is operator+=");
+      if (to.size() && max(abs(to-from))>1e-8*max(abs(from))) throw std::runtime_error("Tridiagonal structure mismatch is operator+=");
       else {
         to.resize(from.shape());
         to=from;
-- 
2.43.0


From d2fe843c05ae08e99df8575139921e38334f0e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:23 +0000
Subject: [PATCH 10/37] fix: purely diagonal Tridiagonals were furnished with
 frequencies for off-diagonals they do not have

---
 CPPQEDcore/quantumoperator/Tridiagonal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumoperator/Tridiagonal.cc b/CPPQEDcore/quantumoperator/Tridiagonal.cc
index 9a0e5ee..f24fafc 100644
--- a/CPPQEDcore/quantumoperator/Tridiagonal.cc
+++ b/CPPQEDcore/quantumoperator/Tridiagonal.cc
@@ -26,7 +26,7 @@ Tridiagonal<1>&
 Tridiagonal<1>::furnishWithFreqs(const Diagonal& mainDiagonal)
 {
   const size_t k=differences_(0), diagonalSize=getTotalDimension()-k;
-  if (diagonalSize>0) {
+  if (k && diagonalSize>0) { // a purely diagonal matrix has no time dependence
     freqs_(1).resize(diagonalSize);
     for (int n=0; n<diagonalSize; n++)
       freqs_(1)(n)=mainDiagonal(n+k)-mainDiagonal(n);
-- 
2.43.0


From b39dedab69e6c75d9206b3edc5897e0aa527461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:20 +0000
Subject: [PATCH 11/37] fix: Kerr nonlinearity of modes was ignored, double
 counted or had inconsistent frequencies depending on the picture

---
 CPPQEDelements/frees/BichromaticMode.h | 2 +-
 CPPQEDelements/frees/Mode.cc           | 8 ++++----
 CPPQEDelements/frees/Mode.tcc          | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/CPPQEDelements/frees/BichromaticMode.h b/CPPQEDelements/frees/BichromaticMode.h
index cde6fcb..ecce0c0 100644
--- a/CPPQEDelements/frees/BichromaticMode.h
+++ b/CPPQEDelements/frees/BichromaticMode.h
@@ -36,7 +36,7 @@ public:
   {
     mode::Hamiltonian<true>::getH_OverIs().push_back(
                                                      furnishWithFreqs(mode::pumping(p.etaOther,getDimension()),
-                                                                      mode::mainDiagonal(zI_Other,0,getDimension()))
+                                                                      mode::mainDiagonal(zI_Other,-p.omegaKerr,getDimension()))
                                                      );
     getParsStream()<<"Bichromatic pumping."; mode::isFiniteTempStream<TEMPERATURE>(getParsStream(),p.nTh);
   }
diff --git a/CPPQEDelements/frees/Mode.cc b/CPPQEDelements/frees/Mode.cc
index 1438922..03dbd4e 100644
--- a/CPPQEDelements/frees/Mode.cc
+++ b/CPPQEDelements/frees/Mode.cc
@@ -41,7 +41,7 @@ Exact::Exact(dcomp zI, double omegaKerr, size_t dim)
 
 void Exact::updateU(Time t) const
 {
-  getDiagonal()=exp(-zI_*(double(t)*blitz::tensor::i));
+  getDiagonal()=exp(mainDiagonal(-zI_,omegaKerr_,getDiagonal().size())*double(t));
 }
 
 
@@ -76,7 +76,7 @@ Tridiagonal hOverI(dcomp z, dcomp eta, double omegaKerr, size_t dim)
 // Here we use runtime dispatching because runtime dispatching will anyway happen at the latest in some maker function.
 {
   bool isPumped=isNonZero(eta);
-  if (isNonZero(z)) {
+  if (isNonZero(z) || omegaKerr) {
     Tridiagonal res(mainDiagonal(-z,omegaKerr,dim));
     if (isPumped) return res+pumping(eta,dim);
     else return res;
@@ -94,7 +94,7 @@ Tridiagonal hOverI(dcomp z, dcomp eta, double omegaKerr, size_t dim)
 
 template<> template<>
 Hamiltonian<true >::Hamiltonian(dcomp zSch, dcomp zI, dcomp eta, double omegaKerr, double omegaKerrAlter, size_t dim)
-  : Base(furnishWithFreqs(hOverI(zSch,eta,omegaKerr,dim),mainDiagonal(zI,omegaKerr,dim))), Exact(zI,omegaKerr,dim), zSch_(zSch), eta_(eta), dim_(dim)
+  : Base(furnishWithFreqs(hOverI(zSch,eta,0.,dim),mainDiagonal(zI,-omegaKerr,dim))), Exact(zI,omegaKerr,dim), zSch_(zSch), eta_(eta), dim_(dim)
 {
   FILLKERR
 }
@@ -289,7 +289,7 @@ const Tridiagonal aop(Ptr mode)
 {
   size_t dim=mode->getDimension();
   Tridiagonal res(aop(dim));
-  if (const auto exact=dynamic_cast<const mode::Exact*>(mode.get())) res.furnishWithFreqs(mainDiagonal(exact->get_zI(),exact->get_omegaKerr(),dim));
+  if (const auto exact=dynamic_cast<const mode::Exact*>(mode.get())) res.furnishWithFreqs(mainDiagonal(exact->get_zI(),-exact->get_omegaKerr(),dim));
   return res;
 }
 
diff --git a/CPPQEDelements/frees/Mode.tcc b/CPPQEDelements/frees/Mode.tcc
index 981933d..ed18aae 100644
--- a/CPPQEDelements/frees/Mode.tcc
+++ b/CPPQEDelements/frees/Mode.tcc
@@ -95,7 +95,7 @@ void AveragedMonitorCutoff<Base>::process_v(Averages& averages) const
 
 template<typename AveragingType> template<typename... AveragingConstructorParameters>
 Mode<AveragingType>::Mode(const mode::Pars& p, AveragingConstructorParameters&&... a)
-  : mode::Exact(dcomp(0,-p.delta),p.omegaKerr,p.cutoff),
+  : mode::Exact(dcomp(0,-p.delta),p.omegaKerr+p.omegaKerrAlter,p.cutoff),
     ModeBase(p.cutoff,TUPLE_delta(1)),
     AveragingType(std::forward<AveragingConstructorParameters>(a)...)
 {}
@@ -134,7 +134,7 @@ PumpedModeSch<AveragingType>::PumpedModeSch(const mode::ParsPumped& p, Averaging
 template<bool TEMPERATURE, typename AveragingType> template<typename... AveragingConstructorParameters>
 LossyMode<TEMPERATURE,AveragingType>::LossyMode(const mode::ParsLossy& p, AveragingConstructorParameters&&... a)
   : mode::Liouvillean<TEMPERATURE>(p.kappa,p.nTh),
-    mode::Exact(dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),-p.delta),p.omegaKerr,p.cutoff),
+    mode::Exact(dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),-p.delta),p.omegaKerr+p.omegaKerrAlter,p.cutoff),
     ModeBase(p.cutoff,TUPLE_kappadelta(1)),
     AveragingType(std::forward<AveragingConstructorParameters>(a)...)
 {
-- 
2.43.0


From 7864429953b51ecad567af2fee61d212edc0ec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:20 +0000
Subject: [PATCH 12/37] fix: exact propagation over a zero interval annihilated
 the state when called first

---
 CPPQEDcore/structure/FreeExact.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/structure/FreeExact.h b/CPPQEDcore/structure/FreeExact.h
index b6dc2bb..184c3e8 100644
--- a/CPPQEDcore/structure/FreeExact.h
+++ b/CPPQEDcore/structure/FreeExact.h
@@ -23,7 +23,7 @@ public:
   typedef typename ExactTimeDependenceDispatched<1,IS_TWO_TIME>::Time Time;
 
 protected:
-  explicit FreeExact(size_t dim) : diagonal_(int(dim)), t_(0,0) {}
+  explicit FreeExact(size_t dim) : diagonal_(int(dim)), t_(0,0) {diagonal_=1.;} // t_ signifies no propagation initially
   
   Diagonal& getDiagonal() const {return diagonal_;}
 
-- 
2.43.0


From a8a973617b563bb9661aaceec84aa96e2986ecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:21 +0000
Subject: [PATCH 13/37] fix: PumpedLossyModeAlternative missed the thermal part
 of the damping

---
 CPPQEDelements/frees/Mode.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/frees/Mode.tcc b/CPPQEDelements/frees/Mode.tcc
index ed18aae..c7e8418 100644
--- a/CPPQEDelements/frees/Mode.tcc
+++ b/CPPQEDelements/frees/Mode.tcc
@@ -203,7 +203,7 @@ PumpedLossyModeSch<TEMPERATURE,AveragingType>::PumpedLossyModeSch(const mode::Pa
 template<bool TEMPERATURE, typename AveragingType> template<typename... AveragingConstructorParameters>
 PumpedLossyModeAlternative<TEMPERATURE,AveragingType>::PumpedLossyModeAlternative(const mode::ParsPumpedLossy& p, AveragingConstructorParameters&&... a)
   : mode::Liouvillean<TEMPERATURE,true>(p.kappa,p.nTh),
-    mode::Hamiltonian<true>(0,dcomp(p.kappa,-p.delta),p.eta,p.omegaKerr,p.omegaKerrAlter,p.cutoff),
+    mode::Hamiltonian<true>(0,dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),-p.delta),p.eta,p.omegaKerr,p.omegaKerrAlter,p.cutoff),
     ModeBase(p.cutoff,{TUPLE_kappadelta(1),TUPLE_eta}),
     AveragingType(std::forward<AveragingConstructorParameters>(a)...)
 {
-- 
2.43.0


From c5c07a14ea2879c37475b741382c9228107b7d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:21 +0000
Subject: [PATCH 14/37] fix: time-dependent ElementLiouvillean with several
 Lindblads did not compile

---
 CPPQEDcore/structure/ElementLiouvillean.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/structure/ElementLiouvillean.h b/CPPQEDcore/structure/ElementLiouvillean.h
index f09e3e9..0751231 100644
--- a/CPPQEDcore/structure/ElementLiouvillean.h
+++ b/CPPQEDcore/structure/ElementLiouvillean.h
@@ -106,7 +106,7 @@ struct ElementLiouvilleanException : std::runtime_error {using std::runtime_erro
  */
 template<int RANK, int NLINDBLADS, bool IS_TIME_DEPENDENT=false>
 class ElementLiouvillean : public ElementLiouvilleanAveragedCommon<LiouvilleanTimeDependenceDispatched<RANK,IS_TIME_DEPENDENT> >,
-                           public lindblad::_<RANK,NLINDBLADS-1,false,NLINDBLADS>
+                           public lindblad::_<RANK,NLINDBLADS-1,IS_TIME_DEPENDENT,NLINDBLADS>
 {
 private:
   typedef ElementLiouvilleanAveragedCommon<LiouvilleanTimeDependenceDispatched<RANK,IS_TIME_DEPENDENT> > Base;
-- 
2.43.0


From 0ff2e9c09b7f4f4c63934eb4030cc8577d32f59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:36 +0000
Subject: [PATCH 15/37] fix: HomodynedMode did not have the same Liouvillean as
 LossyMode

---
 CPPQEDelements/frees/HomodynedMode.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CPPQEDelements/frees/HomodynedMode.cc b/CPPQEDelements/frees/HomodynedMode.cc
index f40cf59..6db0c31 100644
--- a/CPPQEDelements/frees/HomodynedMode.cc
+++ b/CPPQEDelements/frees/HomodynedMode.cc
@@ -7,7 +7,8 @@ mode::HomodynedBase::HomodynedBase(const ParsLossy& p,
     structure::ElementLiouvillean<1,2>("HomodynedMode",{"homodyned loss","homodyned absorption"}),
     homodyneAmplitude_(homodyneAmplitude), kappa_(p.kappa), nTh_(p.nTh)
 {
-  getH_OverIs().front()-=sqrt(p.kappa/2.)*(sqrt(p.nTh)+sqrt(p.nTh+1))*tridiagPlusHC(conj(homodyneAmplitude_)*aop(p.cutoff));
+  // shifting the jump operators as J->J+beta leaves the Liouvillean invariant if the non-Hermitian Hamiltonian is shifted as H/i->H/i-conj(beta)*J (constants dropped)
+  getH_OverIs().front()-=sqrt(2.*p.kappa)*(sqrt(p.nTh+1)*conj(homodyneAmplitude_)*aop(p.cutoff)+sqrt(p.nTh)*homodyneAmplitude_*aop(p.cutoff).dagger());
 }
 
 
-- 
2.43.0


From 04c4c45250a4d92e4af7e973a3e25b93dbfcf88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:36 +0000
Subject: [PATCH 16/37] fix: ReducedDensityOperatorNegativity lost the
 density-matrix elements

---
 CPPQEDelements/utils/AveragingUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/utils/AveragingUtils.h b/CPPQEDelements/utils/AveragingUtils.h
index 08b09c6..838d209 100644
--- a/CPPQEDelements/utils/AveragingUtils.h
+++ b/CPPQEDelements/utils/AveragingUtils.h
@@ -110,7 +110,7 @@ private:
   const structure::Averages average_v(structure::NoTime t, const quantumdata::LazyDensityOperator<RANK>& matrix) const override
   {
     auto res(Base::average_v(t,matrix));
-    res.resize(res.size()+1);
+    res.resizeAndPreserve(res.size()+1);
     return res;
   }
 
-- 
2.43.0


From f48486b54365e4791826f5c14025dbaaa4f041ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:36 +0000
Subject: [PATCH 17/37] fix: superoperator of level-dependent phase diffusion
 used only the coefficient of the first level

---
 CPPQEDcore/structure/ElementLiouvillean.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CPPQEDcore/structure/ElementLiouvillean.h b/CPPQEDcore/structure/ElementLiouvillean.h
index 0751231..ddd5a3a 100644
--- a/CPPQEDcore/structure/ElementLiouvillean.h
+++ b/CPPQEDcore/structure/ElementLiouvillean.h
@@ -368,10 +368,11 @@ protected:
     if (lindbladNo<base_nAvr_) Base::actWithSuperoperator_v(t,rho,drhodt,lindbladNo);
     else if(lindbladNo==base_nAvr_) { // with this single case we cover the action of all the diffusive Lindblads
       for (int m=0; m<dim_; ++m) {
-        drhodt(m,m)+=2*diffusionCoeffs_[lindbladNo-base_nAvr_]*rho(m,m);
+        drhodt(m,m)+=2*diffusionCoeffs_[0]*rho(m,m);
         for (int n=m+1; n<dim_; ++n) {
-          drhodt(m,n)-=6*diffusionCoeffs_[lindbladNo-base_nAvr_]*rho(m,n);
-          drhodt(n,m)-=6*diffusionCoeffs_[lindbladNo-base_nAvr_]*rho(n,m);
+          double coeff=2*diffusionCoeffs_[0]-4*(diffusionCoeffs_[m]+diffusionCoeffs_[n]); // up to the contribution proportional to the identity
+          drhodt(m,n)+=coeff*rho(m,n);
+          drhodt(n,m)+=coeff*rho(n,m);
         }
       }
     }
-- 
2.43.0


From 7ebcf8ac095c34ebd40c3a8868e775ed41227c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:42 +0000
Subject: [PATCH 18/37] fix: ParticleOrthogonalToCavity scattered from the
 complex conjugate of the pump's mode function

---
 CPPQEDelements/interactions/ParticleCavity.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/interactions/ParticleCavity.cc b/CPPQEDelements/interactions/ParticleCavity.cc
index d8ec820..d6337b5 100644
--- a/CPPQEDelements/interactions/ParticleCavity.cc
+++ b/CPPQEDelements/interactions/ParticleCavity.cc
@@ -75,7 +75,7 @@ ParticleOrthogonalToCavity::ParticleOrthogonalToCavity(mode::Ptr mode, particle:
 
 ParticleOrthogonalToCavity::ParticleOrthogonalToCavity(mode::Ptr mode, particle::PtrPumped particle, double uNot, double etaeff)
   : particlecavity::Base(mode,particle,uNot,etaeff),
-    TridiagonalHamiltonian(interfericOneModeFN(mode,particle,etaeff,particle->getMF()))
+    TridiagonalHamiltonian(etaeff*tridiagPlusHC_overI(mode::aop(mode).dagger()*mfNKX(particle,particle->getMF())))
 {
   getParsStream()<<"Particle moving orthogonal to cavity\n"; /* photons/(particle number)^2="
                                                                   <<uNot*particle->getV_Class()/sqrAbs(mode->getComplexFreqs(""))<<std::endl; */
-- 
2.43.0


From fa58993dbf12e752533b9b1055d18e751dc1f29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:42 +0000
Subject: [PATCH 19/37] fix: ParticleOrthogonalToCavity ignored the effective
 pump of ParsOrthogonalGenericPump

---
 CPPQEDelements/interactions/ParticleCavity_.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CPPQEDelements/interactions/ParticleCavity_.h b/CPPQEDelements/interactions/ParticleCavity_.h
index fd53069..4befccb 100644
--- a/CPPQEDelements/interactions/ParticleCavity_.h
+++ b/CPPQEDelements/interactions/ParticleCavity_.h
@@ -41,6 +41,9 @@ public:
   ParticleOrthogonalToCavity(mode::Ptr mode, particle::PtrPumped part, const particlecavity::ParsOrthogonal& p)
     : ParticleOrthogonalToCavity(mode,part,p.uNot) {}
 
+  ParticleOrthogonalToCavity(mode::Ptr mode, particle::PtrPumped part, const particlecavity::ParsOrthogonalGenericPump& p)
+    : ParticleOrthogonalToCavity(mode,part,p.uNot,p.etaeff) {}
+
 private:
   ParticleOrthogonalToCavity(mode::Ptr, particle::PtrPumped, double uNot);
   ParticleOrthogonalToCavity(mode::Ptr, particle::PtrPumped, double uNot, double etaeff);
-- 
2.43.0


From 1b20292284896df6c4a3a15571559c95960b3ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:42 +0000
Subject: [PATCH 20/37] fix: ParticleTwoModes used opposite signs of phi for
 equal and different wave numbers

---
 CPPQEDelements/interactions/ParticleTwoModes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDelements/interactions/ParticleTwoModes.cc b/CPPQEDelements/interactions/ParticleTwoModes.cc
index 3c9a6c5..8515489 100644
--- a/CPPQEDelements/interactions/ParticleTwoModes.cc
+++ b/CPPQEDelements/interactions/ParticleTwoModes.cc
@@ -35,7 +35,7 @@ ParticleTwoModes::ParticleTwoModes(mode::Ptr mode0, mode::Ptr mode1, particle::P
                                    double phi)
   : structure::Interaction<3>({mode0,mode1,part},
                               {RF{"Unot0",uNot0,sqrt(mode0->getDimension())},RF{"Unot1",uNot1,sqrt(mode1->getDimension())}}),
-                              firstH_(factor(uNot0,uNot1,phi)*mode::aop(mode0)*mode::aop(mode1).dagger()*mfNKX(part,mf0)/1i), firstHT_(-firstH_.dagger()),
+                              firstH_(conj(factor(uNot0,uNot1,phi))*mode::aop(mode0)*mode::aop(mode1).dagger()*mfNKX(part,mf0)/1i), firstHT_(-firstH_.dagger()),
     secondH_(mfNKX(part,mf1).dagger()), secondHT_(secondH_.dagger()),
     isSpecialH_(abs(get<1>(mf0))==abs(get<1>(mf1))),
     specialH_(isSpecialH_ ? Tridiagonals{quantumoperator::tridiagPlusHC_overI( factor(uNot0,uNot1,phi)*mode::aop(mode0).dagger()*mode::aop(mode1)*mfComposition(part,mf0,mf1) )}: Tridiagonals{})
-- 
2.43.0


From 633bf956970b4a0c8a773fffd990e48a7f007085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:04 +0000
Subject: [PATCH 21/37] fix: jumps of the interaction in a BinarySystem were
 lost if only the first free is lossy

---
 CPPQEDcore/composites/BinarySystem.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/composites/BinarySystem.cc b/CPPQEDcore/composites/BinarySystem.cc
index f4a2143..6c8aad1 100644
--- a/CPPQEDcore/composites/BinarySystem.cc
+++ b/CPPQEDcore/composites/BinarySystem.cc
@@ -227,7 +227,8 @@ void binary::Liouvillean::actWithJ_v(double t, StateVectorLow& psi, size_t i) co
   }
 
   i-=n;  
-  if (li1 && i<(n=free1_.nAvr<LA_Li>())) {
+  n=free1_.nAvr<LA_Li>();
+  if (li1 && i<n) {
     for(auto& psiS : fullRange<V1>(psi)) li1->actWithJ(t,psiS,i);
     return;
   }
@@ -261,7 +262,8 @@ void binary::Liouvillean::actWithSuperoperator_v(double t, const DensityOperator
   }
 
   i-=n;  
-  if (li1 && i<(n=free1_.nAvr<LA_Li>())) {
+  n=free1_.nAvr<LA_Li>();
+  if (li1 && i<n) {
     boost::range::for_each(fullRange<V1>(rho),fullRange<V1>(drhodt),lambda(li1));
     return;
   }
-- 
2.43.0


From 88ab8885c62718d155ad45fb86bc7ce0d1754a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:33 +0000
Subject: [PATCH 22/37] fix: lossy modes with Kerr nonlinearity in unitary
 interaction picture were wrong in Master

The Kerr part of the exact propagator does not merely rephase the jump operator, so
that the condition of applicability in Master was violated. It is left in the Hamiltonian.
---
 CPPQEDelements/frees/Mode.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDelements/frees/Mode.tcc b/CPPQEDelements/frees/Mode.tcc
index c7e8418..b70d506 100644
--- a/CPPQEDelements/frees/Mode.tcc
+++ b/CPPQEDelements/frees/Mode.tcc
@@ -145,7 +145,7 @@ LossyMode<TEMPERATURE,AveragingType>::LossyMode(const mode::ParsLossy& p, Averag
 template<bool TEMPERATURE, typename AveragingType> template<typename... AveragingConstructorParameters>
 LossyModeUIP<TEMPERATURE,AveragingType>::LossyModeUIP(const mode::ParsLossy& p, AveragingConstructorParameters&&... a)
   : mode::Liouvillean<TEMPERATURE>(p.kappa,p.nTh),
-    mode::Hamiltonian<true>(dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),0.),dcomp(0.,-p.delta),0,p.omegaKerr,p.omegaKerrAlter,p.cutoff),
+    mode::Hamiltonian<true>(dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),0.),dcomp(0.,-p.delta),0,0,p.omegaKerr+p.omegaKerrAlter,p.cutoff),
     ModeBase(p.cutoff,{TUPLE_kappa,TUPLE_delta(1)}),
     AveragingType(std::forward<AveragingConstructorParameters>(a)...)
 {
@@ -178,7 +178,7 @@ PumpedLossyMode<TEMPERATURE,AveragingType>::PumpedLossyMode(const mode::ParsPump
 template<bool TEMPERATURE, typename AveragingType> template<typename... AveragingConstructorParameters>
 PumpedLossyModeUIP<TEMPERATURE,AveragingType>::PumpedLossyModeUIP(const mode::ParsPumpedLossy& p, AveragingConstructorParameters&&... a)
   : mode::Liouvillean<TEMPERATURE>(p.kappa,p.nTh),
-    mode::Hamiltonian<true>(dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),0.),dcomp(0.,-p.delta),p.eta,p.omegaKerr,p.omegaKerrAlter,p.cutoff),
+    mode::Hamiltonian<true>(dcomp(mode::finiteTemperatureHamiltonianDecay<TEMPERATURE>(p),0.),dcomp(0.,-p.delta),p.eta,0,p.omegaKerr+p.omegaKerrAlter,p.cutoff),
     ModeBase(p.cutoff,{TUPLE_kappa,TUPLE_delta(1)},TUPLE_eta),
     AveragingType(std::forward<AveragingConstructorParameters>(a)...)
 {
-- 
2.43.0


From 440892633f9051c54d167e9a746b2c396795b658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:33 +0000
Subject: [PATCH 23/37] fix: MCWF step-back did not restore the origin of the
 interaction picture

---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index 1646809..6d047d5 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -348,7 +348,7 @@ template<int RANK, typename ODE_Engine, typename RandomEngine>
 void quantumtrajectory::MCWF_Trajectory<RANK,ODE_Engine,RandomEngine>::step(double Dt, std::ostream& logStream)
 {
   const StateVector psiCache(psi_); // deep copy
-  double tCache=t_, dtDidCache=getDtDid();
+  double tCache=t_, t0Cache=t0_, dtDidCache=getDtDid();
 
   coherentTimeDevelopment(Dt,logStream);
 
@@ -358,7 +358,7 @@ void quantumtrajectory::MCWF_Trajectory<RANK,ODE_Engine,RandomEngine>::step(doub
     IndexSVL_tuples specialRates=calculateSpecialRates(&rates);
 
     while (manageTimeStep(rates,tCache,dtDidCache,logStream)) {
-      psi_=psiCache;
+      psi_=psiCache; t0_=t0Cache;
       coherentTimeDevelopment(Dt,logStream); // the next try
       rates=li->rates(t_,psi_);
       specialRates=calculateSpecialRates(&rates);
-- 
2.43.0


From 9f4bd111f0d9cceaae713f459dd125bc4a81c68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:42 +0000
Subject: [PATCH 24/37] fix: MCWF_Trajectory ignored the noise parameter

---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index 6d047d5..7063061 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -104,8 +104,10 @@ public:
   MCWF_Trajectory(structure::QuantumSystemPtr<RANK> sys, ///< object representing the quantum system
                   SV&& psi, ///< the state vector to be evolved
                   ODE_Engine ode, randomutils::EngineWithParameters<RandomEngine> re,
-                  double dpLimit, double overshootTolerance, int logLevel)
-  : structure::QuantumSystemWrapper<RANK>{sys,true}, psi_{std::forward<StateVector>(psi)},
+                  double dpLimit, double overshootTolerance, int logLevel,
+                  bool noise=true ///< whether quantum jumps are enabled
+                 )
+  : structure::QuantumSystemWrapper<RANK>{sys,noise}, psi_{std::forward<StateVector>(psi)},
     ode_{ode}, re_{re}, dpLimit_{dpLimit}, overshootTolerance_{overshootTolerance},
     logger_{logLevel,this->template nAvr<structure::LA_Li>()}
   {
@@ -205,7 +207,7 @@ auto make(structure::QuantumSystemPtr<std::decay_t<SV>::N_RANK> sys,
           SV&& state, const Pars<RandomEngine>& p)
 {
   return MCWF_Trajectory<std::decay_t<SV>::N_RANK,ODE_Engine,RandomEngine>{
-    sys,std::forward<SV>(state),{initialTimeStep(sys),p},{p.seed,p.prngStream},p.dpLimit,p.overshootTolerance,p.logLevel
+    sys,std::forward<SV>(state),{initialTimeStep(sys),p},{p.seed,p.prngStream},p.dpLimit,p.overshootTolerance,p.logLevel,p.noise
   };
 }
 
-- 
2.43.0


From ef66f8a5eb4f3a21babc6c2094e0ace698494160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:29 +0000
Subject: [PATCH 25/37] fix: MCWF performed jump number -1 when a step at the
 end of an interval corrects time backwards

---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index 7063061..09e4582 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -328,7 +328,7 @@ void quantumtrajectory::MCWF_Trajectory<RANK,ODE_Engine,RandomEngine>::performJu
   for (; random>0 && lindbladNo!=rates.size(); random-=rates(lindbladNo++))
     ;
 
-  if(random<0) { // Jump corresponding to Lindblad no. lindbladNo-1 occurs
+  if(lindbladNo && random<0) { // (a rounding correction of the end of an interval may step backwards) Jump corresponding to Lindblad no. lindbladNo-1 occurs
     --lindbladNo; auto i=boost::find_if(specialRates,[=](const IndexSVL_tuple& j){return lindbladNo==std::get<0>(j);});
     if (i!=specialRates.end())
       // special jump
-- 
2.43.0


From cb3d792b011049a2a682af5c29c0a2f6af8a2338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:59 +0000
Subject: [PATCH 26/37] fix: state files with other dimensions than the system
 were silently absorbed

---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 10 ++++++++--
 CPPQEDcore/quantumtrajectory/Master.h          | 10 ++++++++--
 CPPQEDutils/Simulated_.h                       | 12 ++++++++++--
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index 09e4582..c6cfcee 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -131,7 +131,7 @@ public:
   /// Forwards to structure::Averaged::stream
   auto stream(std::ostream& os, int precision) const {return structure::QuantumSystemWrapper<RANK>::stream(getTime(),psi_,os,precision);}
   
-  auto& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {StateVectorLow temp; iar & temp; psi_.getArray().reference(temp); return iar;}
+  auto& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {StateVectorLow temp; iar & temp; replaceState(temp); return iar;}
 
   /** structure of MCWF_Trajectory archives:
   * metaData – array – time – ( odeStepper – odeLogger – dtDid – dtTry ) – randomEngine – logger
@@ -141,7 +141,7 @@ public:
   {
     StateVectorLow temp;
     ode_.stateIO(iar & temp & t_) & re_.engine & logger_;
-    psi_.getArray().reference(temp);
+    replaceState(temp);
     t0_=t_; // A very important step!
     return iar;
   }
@@ -169,6 +169,12 @@ private:
 
   StateVector averaged() const {return psi_;}
 
+  void replaceState(StateVectorLow& psi)
+  {
+    if (any(psi.shape()!=psi_.getArray().shape())) throw DimensionalityMismatchException("during MCWF_Trajectory state input");
+    psi_.getArray().reference(psi);
+  }
+
   void coherentTimeDevelopment(double Dt, std::ostream&);
   
   const IndexSVL_tuples calculateSpecialRates(structure::Rates* rates) const;
diff --git a/CPPQEDcore/quantumtrajectory/Master.h b/CPPQEDcore/quantumtrajectory/Master.h
index 8320520..c3baeb9 100644
--- a/CPPQEDcore/quantumtrajectory/Master.h
+++ b/CPPQEDcore/quantumtrajectory/Master.h
@@ -84,7 +84,7 @@ public:
   
   auto stream(std::ostream& os, int precision) const {return dos_(t_,rho_,os,precision);}
   
-  auto& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {DensityOperatorLow temp; iar & temp; rho_.getArray().reference(temp); return iar;}
+  auto& readFromArrayOnlyArchive(cppqedutils::iarchive& iar) {DensityOperatorLow temp; iar & temp; replaceState(temp); return iar;}
 
   /** structure of Master archives:
   * metaData – array – time – ( odeStepper – odeLogger – dtDid – dtTry )
@@ -94,7 +94,7 @@ public:
   {
     DensityOperatorLow temp;
     ode_.stateIO(iar & temp & t_);
-    rho_.getArray().reference(temp);
+    replaceState(temp);
     t0_=t_; // A very important step!
     return iar;
   }
@@ -106,6 +106,12 @@ public:
   std::ostream& logOnEnd(std::ostream& os) const {return ode_.logOnEnd(os);}
 
 private:
+  void replaceState(DensityOperatorLow& rho)
+  {
+    if (any(rho.shape()!=rho_.getArray().shape())) throw DimensionalityMismatchException("during Master state input");
+    rho_.getArray().reference(rho);
+  }
+
   double t_=0., t0_=0.;
   
   DensityOperator rho_;
diff --git a/CPPQEDutils/Simulated_.h b/CPPQEDutils/Simulated_.h
index a6a1488..e0fd5ea 100644
--- a/CPPQEDutils/Simulated_.h
+++ b/CPPQEDutils/Simulated_.h
@@ -54,19 +54,27 @@ public:
     return {os,Copy<StateType>::_(state_)};
   }
 
-  iarchive& readFromArrayOnlyArchive(iarchive& iar) {return iar & state_;}
+  iarchive& readFromArrayOnlyArchive(iarchive& iar) {arrayIO(iar); return iar;}
 
   /** structure of Simulated archives:
    * metaData – array – time – ( odeStepper – odeLogger – dtDid – dtTry )
    */
   template <typename Archive>
-  Archive& stateIO(Archive& ar) {return ode_.stateIO(ar & state_ & t_);} // state should precede time in order to be compatible with array-only archives
+  Archive& stateIO(Archive& ar) {arrayIO(ar); return ode_.stateIO(ar & t_);} // state should precede time in order to be compatible with array-only archives
   
   std::ostream& streamKey(std::ostream& os) const {size_t i=3; return keyPrinter_.stream(os,i);}
 
   std::ostream& logOnEnd(std::ostream& os) const {return ode_.logOnEnd(os);}
   
 private:
+  template <typename Archive>
+  void arrayIO(Archive& ar)
+  {
+    const auto size=SubscriptLimit<StateType>::_(state_);
+    ar & state_;
+    if (SubscriptLimit<StateType>::_(state_)!=size) throw std::runtime_error("Dimensionality mismatch during Simulated state input");
+  }
+
   double t_=0.;
   
   StateType state_;
-- 
2.43.0


From 82914c5c1fc4b7445a0aad27a034cf014fb7c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:59 +0000
Subject: [PATCH 27/37] fix: array-only initial conditions of other rank or
 element type were silently absorbed

---
 CPPQEDutils/Trajectory.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/CPPQEDutils/Trajectory.h b/CPPQEDutils/Trajectory.h
index 9f40ab2..23f3d15 100644
--- a/CPPQEDutils/Trajectory.h
+++ b/CPPQEDutils/Trajectory.h
@@ -371,9 +371,13 @@ struct ReadState
   {
     SerializationMetadata sm;
     iar & sm;
-    if (sm.trajectoryID==SerializationMetadata::ARRAY_ONLY) return traj.readFromArrayOnlyArchive(iar);
+    const auto smTraj{MakeSerializationMetadata<Trajectory>::_()};
+    if (sm.trajectoryID==SerializationMetadata::ARRAY_ONLY) {
+      if (sm.rank!=smTraj.rank || sm.typeID!=smTraj.typeID) throw std::runtime_error("Array mismatch in cppqedutils::trajectory::ReadState");
+      return traj.readFromArrayOnlyArchive(iar);
+    }
     else {
-      if (sm != MakeSerializationMetadata<Trajectory>::_()) throw std::runtime_error("Trajectory mismatch in cppqedutils::trajectory::ReadState");
+      if (sm != smTraj) throw std::runtime_error("Trajectory mismatch in cppqedutils::trajectory::ReadState");
       return traj.stateIO(iar);
     }
   }
-- 
2.43.0


From b2e32863e23817397a5b48c39c3ddeb4713130e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:11 +0000
Subject: [PATCH 28/37] fix: ParsFunctionScan honours its modifier

---
 CPPQEDcore/quantumdata/DistributionFunctions.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/CPPQEDcore/quantumdata/DistributionFunctions.cc b/CPPQEDcore/quantumdata/DistributionFunctions.cc
index db804bd..1245a04 100644
--- a/CPPQEDcore/quantumdata/DistributionFunctions.cc
+++ b/CPPQEDcore/quantumdata/DistributionFunctions.cc
@@ -17,14 +17,14 @@ namespace quantumdata {
 
 
 ParsFunctionScan::ParsFunctionScan(parameters::Table& p, const std::string& mod)
-  : fLimitXUL(p.addTitle("Distribution function scan",mod).add("fLimitXUL","",2.)),
-    fLimitYUL(p.add("fLimitYUL","",2.)),
-    fLimitXL(p.add("fLimitXL","",-2.)),
-    fLimitXU(p.add("fLimitXU","",2.)),
-    fLimitYL(p.add("fLimitYL","",-2.)),
-    fLimitYU(p.add("fLimitYU","",2.)),
-    fStep(p.add("fStep","",.1)),
-    fCutoff(p.add("fCutoff","",100))
+  : fLimitXUL(p.addTitle("Distribution function scan",mod).add("fLimitXUL",mod,"",2.)),
+    fLimitYUL(p.add("fLimitYUL",mod,"",2.)),
+    fLimitXL(p.add("fLimitXL",mod,"",-2.)),
+    fLimitXU(p.add("fLimitXU",mod,"",2.)),
+    fLimitYL(p.add("fLimitYL",mod,"",-2.)),
+    fLimitYU(p.add("fLimitYU",mod,"",2.)),
+    fStep(p.add("fStep",mod,"",.1)),
+    fCutoff(p.add("fCutoff",mod,"",100))
 {}
 
 
-- 
2.43.0


From cbd0160e52db133e51d21096bd482c7ff0ba7b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:11 +0000
Subject: [PATCH 29/37] fix: reading a TinyVector with wrong delimiters fails
 instead of yielding wrong components

---
 CPPQEDutils/IO_Manip.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/CPPQEDutils/IO_Manip.h b/CPPQEDutils/IO_Manip.h
index 69223b6..0f5a090 100644
--- a/CPPQEDutils/IO_Manip.h
+++ b/CPPQEDutils/IO_Manip.h
@@ -37,21 +37,17 @@ public:
     using namespace std;
 
     char sep;
-              
-    is >> sep;
-    BZPRECHECK(sep == tuple_open, "Format error while scanning input TinyVector" << endl << string(" (expected '") + tuple_open + string("' opening TinyVector)") );
+
+    const auto expect = [&](char c) { is >> sep; if (is && sep != c) is.setstate(ios_base::failbit); };
+
+    expect(tuple_open);
 
     is >> x(0);
     for (int i = 1; i < NL; ++i) {
-      if (!isspace(tuple_delimiter)) {
-        is >> sep;
-        BZPRECHECK(sep == tuple_delimiter, "Format error while scanning input TinyVector" << endl << string(" (expected '") + tuple_delimiter + string("' between TinyVector components)") );
-      }
-      BZPRECHECK(!is.bad(), "Premature end of input while scanning TinyVector");
+      if (!isspace(tuple_delimiter)) expect(tuple_delimiter);
       is >> x(i);
     }
-    is >> sep;
-    BZPRECHECK(sep == tuple_close, "Format error while scanning input TinyVector" << endl << string(" (expected '") + tuple_close + string("' closing TinyVector)") );
+    expect(tuple_close);
       
     return is;
   }
-- 
2.43.0


From f227b1ac90403e1b8de71bb6778bc4e5dad07ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:11 +0000
Subject: [PATCH 30/37] fix: parameters of fusion-vector type can be given on
 the command line

---
 CPPQEDutils/Pars.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CPPQEDutils/Pars.cc b/CPPQEDutils/Pars.cc
index a6e2dc4..6794da5 100644
--- a/CPPQEDutils/Pars.cc
+++ b/CPPQEDutils/Pars.cc
@@ -150,6 +150,7 @@ void parameters::update(parameters::Table& table, int argc, char* argv[], const
     }
     else
       try {
+        if (!line.eof()) line>>std::ws; // not every type skips leading whitespace by itself
         table[temp].read(line);
         if (line.fail()) {
           cerr<<"\nParameter \""<<temp<<"\" supplied with incorrect syntax"<<ErrorMessage::_(prefix);
-- 
2.43.0


From fb580ab60e0f51bb6d7faa3e589bf3151cc49f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:11 +0000
Subject: [PATCH 31/37] fix: coherent states of large amplitude are normalised
 (no overflow, no Stirling error)

---
 CPPQEDelements/frees/Mode.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CPPQEDelements/frees/Mode.cc b/CPPQEDelements/frees/Mode.cc
index 03dbd4e..6461e06 100644
--- a/CPPQEDelements/frees/Mode.cc
+++ b/CPPQEDelements/frees/Mode.cc
@@ -320,7 +320,8 @@ double photonNumber(const LazyDensityOperator& matrix)
 
 StateVector coherent(dcomp alpha, size_t dim)
 {
-  return StateVector{dim,[=](StateVector& psi) {double norm=exp(-cppqedutils::sqrAbs(alpha)/2.); for (size_t n=0; n<dim; ++n) psi(n)=norm*coherentElement(n,alpha);}};
+  // the exponents are combined before exponentiation, because the factors individually go out of range for large alpha
+  return StateVector{dim,[=](StateVector& psi) {for (size_t n=0; n<dim; ++n) psi(n)=exp((n ? double(n)*log(alpha) : 0.)-(lgamma(n+1.)+cppqedutils::sqrAbs(alpha))/2.);}};
 }
 
 
-- 
2.43.0


From aa0db4a821186f0d739059b942c2c1740ee75970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:28 +0000
Subject: [PATCH 32/37] fix: Simulated leaks the memory of its array on every
 state input

blitz++ doesn't release the memory of a non-empty array it unserializes into,
so that each record read (and each read done only for finding the last record
of a state file) leaked one state. Read into a fresh array instead.
---
 CPPQEDutils/Simulated_.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/CPPQEDutils/Simulated_.h b/CPPQEDutils/Simulated_.h
index e0fd5ea..0afbb90 100644
--- a/CPPQEDutils/Simulated_.h
+++ b/CPPQEDutils/Simulated_.h
@@ -70,9 +70,14 @@ private:
   template <typename Archive>
   void arrayIO(Archive& ar)
   {
-    const auto size=SubscriptLimit<StateType>::_(state_);
-    ar & state_;
-    if (SubscriptLimit<StateType>::_(state_)!=size) throw std::runtime_error("Dimensionality mismatch during Simulated state input");
+    if constexpr (Archive::is_loading::value) { // always into a fresh array, since blitz++ doesn’t release the memory of the array it unserializes into
+      StateType temp{};
+      ar & temp;
+      if (SubscriptLimit<StateType>::_(temp)!=SubscriptLimit<StateType>::_(state_)) throw std::runtime_error("Dimensionality mismatch during Simulated state input");
+      if constexpr (requires {state_.reference(temp);}) state_.reference(temp);
+      else state_=temp;
+    }
+    else ar & state_;
   }
 
   double t_=0.;
-- 
2.43.0


From a94db47162b60b8c0d08f0ad1d2673a75abb0ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:31 +0000
Subject: [PATCH 33/37] fix: ReducedDensityOperatorNegativity handed out an
 uninitialised value

The place of the negativity in the averages was left uninitialised until
process_v, whereas average() already tests all the averages for finiteness,
so that arbitrary memory content could make the evolution throw.
---
 CPPQEDelements/utils/AveragingUtils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CPPQEDelements/utils/AveragingUtils.h b/CPPQEDelements/utils/AveragingUtils.h
index 838d209..9f34424 100644
--- a/CPPQEDelements/utils/AveragingUtils.h
+++ b/CPPQEDelements/utils/AveragingUtils.h
@@ -111,6 +111,7 @@ private:
   {
     auto res(Base::average_v(t,matrix));
     res.resizeAndPreserve(res.size()+1);
+    res(res.size()-1)=0; // to be filled in by process_v
     return res;
   }
 
-- 
2.43.0


From b6e34f952d7215d7c5714cf6233933b8314ff15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:04 +0000
Subject: [PATCH 34/37] fix: CommentingStream lost text when it was the last
 owner of its stream

Both set() and destruction released the underlying stream before the pending
text has been flushed into it (use after free).
---
 CPPQEDutils/CommentingStream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CPPQEDutils/CommentingStream.h b/CPPQEDutils/CommentingStream.h
index 37decc3..40242c2 100644
--- a/CPPQEDutils/CommentingStream.h
+++ b/CPPQEDutils/CommentingStream.h
@@ -420,8 +420,10 @@ public:
   using OstreamPtr=std::shared_ptr<std::ostream>;
   
   explicit CommentingStream(OstreamPtr os) : os_{os} {push(commentingstream::CommentingFilter()); push(*os);}
+
+  ~CommentingStream() {reset();} // flushes while the underlying stream is still alive
   
-  void set(OstreamPtr os) {os_=os; reset(); push(commentingstream::CommentingFilter()); push(*os_);}
+  void set(OstreamPtr os) {reset(); os_=os; push(commentingstream::CommentingFilter()); push(*os_);}
 
 private:
   std::shared_ptr<std::ostream> os_;
-- 
2.43.0


From 7208d4a048a52351b043cc33ad3a6b15cae08e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:54 +0000
Subject: [PATCH 35/37] fix: on resuming, MCWF and Master abandoned the storage
 of their initial condition, and MCWF saved no data for a state on a view
 (QbitMode_Matrix crashed)

---
 CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h | 10 ++++++++--
 CPPQEDcore/quantumtrajectory/Master.h          |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
index c6cfcee..7ac91ce 100644
--- a/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
+++ b/CPPQEDcore/quantumtrajectory/MCWF_Trajectory.h
@@ -146,7 +146,13 @@ public:
     return iar;
   }
   
-  auto& stateIO(cppqedutils::oarchive& oar) {return ode_.stateIO(oar & psi_.getArray() & t_) & re_.engine & logger_;}
+  auto& stateIO(cppqedutils::oarchive& oar)
+  {
+    struct Accessor : StateVectorLow {using StateVectorLow::numReferences;};
+    StateVectorLow temp{psi_.getArray()};
+    if ((temp.*(&Accessor::numReferences))()<0) temp.reference(psi_.getArray().copy()); // blitz++ doesn’t serialize the data of arrays on preexisting memory (cf. vectorView)
+    return ode_.stateIO(oar & temp & t_) & re_.engine & logger_;
+  }
 
   /// Forwards to structure::Averaged::streamKey
   std::ostream& streamKey(std::ostream& os) const {size_t i=3; return structure::QuantumSystemWrapper<RANK>::template streamKey<structure::LA_Av>(os,i);}
@@ -172,7 +178,7 @@ private:
   void replaceState(StateVectorLow& psi)
   {
     if (any(psi.shape()!=psi_.getArray().shape())) throw DimensionalityMismatchException("during MCWF_Trajectory state input");
-    psi_.getArray().reference(psi);
+    psi_.getArray()=psi; // elementwise, as the storage of psi_ may be referenced from outside (cf. averagingUtils::Transferring)
   }
 
   void coherentTimeDevelopment(double Dt, std::ostream&);
diff --git a/CPPQEDcore/quantumtrajectory/Master.h b/CPPQEDcore/quantumtrajectory/Master.h
index c3baeb9..c800cf8 100644
--- a/CPPQEDcore/quantumtrajectory/Master.h
+++ b/CPPQEDcore/quantumtrajectory/Master.h
@@ -109,7 +109,7 @@ private:
   void replaceState(DensityOperatorLow& rho)
   {
     if (any(rho.shape()!=rho_.getArray().shape())) throw DimensionalityMismatchException("during Master state input");
-    rho_.getArray().reference(rho);
+    rho_.getArray()=rho; // elementwise, since the initial condition given by the caller may reference the same storage
   }
 
   double t_=0., t0_=0.;
-- 
2.43.0


From 03de102f405a46f40cd6525312cc617aadf704a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:37 +0000
Subject: [PATCH 36/37] fix: wignerFunctionOld yielded NaN due to negated
 unsigned exponents

---
 CPPQEDcore/quantumdata/DistributionFunctions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/quantumdata/DistributionFunctions.h b/CPPQEDcore/quantumdata/DistributionFunctions.h
index 8865a10..99b8110 100644
--- a/CPPQEDcore/quantumdata/DistributionFunctions.h
+++ b/CPPQEDcore/quantumdata/DistributionFunctions.h
@@ -124,10 +124,10 @@ double wignerFunctionOld(const DensityOperatorFunctor& rho, double x, double y,
   double res=0;
 
   for (size_t m=0; m<dim; ++m) {
-    res+=real(minusOneToThePowerOf(m)/factorial<double>(m)*rho(m,m)*pow(2.*1i,-2*m)*wignerFunctionKernel(m,m));
+    res+=real(minusOneToThePowerOf(m)/factorial<double>(m)*rho(m,m)*pow(2.*1i,-2*int(m))*wignerFunctionKernel(m,m));
     
     for (size_t n=m+1; n<dim; ++n)
-      res+=2.*real(minusOneToThePowerOf(m)/sqrt(factorial<double>(n)*factorial<double>(m))*rho(n,m)*pow(2.*1i,-m-n)*wignerFunctionKernel(n,m));
+      res+=2.*real(minusOneToThePowerOf(m)/sqrt(factorial<double>(n)*factorial<double>(m))*rho(n,m)*pow(2.*1i,-int(m+n))*wignerFunctionKernel(n,m));
     
   }
   
-- 
2.43.0


From 5e9b8c20ce426033e1182829c12b776c84b61607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:37 +0000
Subject: [PATCH 37/37] fix: wignerFunctionOld accessed elements beyond the
 dimension of the density operator

---
 CPPQEDcore/quantumdata/DistributionFunctions.cc | 2 +-
 CPPQEDcore/quantumdata/DistributionFunctions.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CPPQEDcore/quantumdata/DistributionFunctions.cc b/CPPQEDcore/quantumdata/DistributionFunctions.cc
index 1245a04..0399789 100644
--- a/CPPQEDcore/quantumdata/DistributionFunctions.cc
+++ b/CPPQEDcore/quantumdata/DistributionFunctions.cc
@@ -35,7 +35,7 @@ namespace {
 const WignerFunctionKernelOld::Hermites fillWithHermite(size_t dim, double x)
 {
   WignerFunctionKernelOld::Hermites res(2*dim-1);
-  res(0)=hermite(0,x); res(1)=hermite(1,x);
+  res(0)=hermite(0,x); if (dim>1) res(1)=hermite(1,x);
   for (unsigned l=1; l<res.size()-1; ++l)
     res(l+1)=hermite_next(l,x,res(l),res(l-1));
   return res;
diff --git a/CPPQEDcore/quantumdata/DistributionFunctions.h b/CPPQEDcore/quantumdata/DistributionFunctions.h
index 99b8110..d00ea43 100644
--- a/CPPQEDcore/quantumdata/DistributionFunctions.h
+++ b/CPPQEDcore/quantumdata/DistributionFunctions.h
@@ -117,7 +117,7 @@ double wignerFunctionOld(const DensityOperatorFunctor& rho, double x, double y,
 {
   using namespace cppqedutils; using boost::math::factorial;
   
-  const size_t dim=truncatedDimension ? truncatedDimension : rho.getDimension(0);
+  const size_t dim=truncatedDimension && truncatedDimension<rho.getDimension(0) ? truncatedDimension : rho.getDimension(0);
   
   const WignerFunctionKernelOld wignerFunctionKernel(x,y,dim);
   
-- 
2.43.0

