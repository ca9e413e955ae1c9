From 777e59fc027470450bfbdf3ad1b43145909c3581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 01/46] fix: triangulate with 4ti2 again when the random
 lifting heights give the trivial subdivision

All-equal or linearly dependent random heights made the triangulation deliver
the non-simplicial cone itself, and the decomposition aborted on it.
---
 .../RegularTriangulationWith4ti2.cpp          | 34 +++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/code/latte/triangulation/RegularTriangulationWith4ti2.cpp b/code/latte/triangulation/RegularTriangulationWith4ti2.cpp
index e7ca3ba..4ad3fb3 100644
--- a/code/latte/triangulation/RegularTriangulationWith4ti2.cpp
+++ b/code/latte/triangulation/RegularTriangulationWith4ti2.cpp
@@ -82,6 +82,36 @@ static bool lindep_heights_p(listCone *cone, BarvinokParameters *Parameters,
 		return false;
 }
 
+void triangulate_cone_with_4ti2(listCone *cone, BarvinokParameters *Parameters,
+		height_function_type height_function, void *height_function_data,
+		ConeConsumer &consumer);
+
+/* The lifting heights yield the trivial polyhedral subdivision, whose
+   only cone is CONE itself.  If a triangulation is wanted and CONE is
+   not simplicial, try again with new random heights. */
+static void consume_trivial_subdivision(listCone *cone,
+		BarvinokParameters *Parameters, ConeConsumer &consumer)
+{
+	if (!Parameters->nonsimplicial_subdivision
+			&& Parameters->triangulation_max_height > 1)
+	{
+		int num_rays = lengthListVector(cone->rays);
+		VectorArray *ray_column_matrix = rays_to_transposed_4ti2_VectorArray(
+				cone->rays, Parameters->Number_of_Variables,
+				/* extra_rows: */0);
+		int rank = upper_triangle(*ray_column_matrix,
+				Parameters->Number_of_Variables, num_rays);
+		delete ray_column_matrix;
+		if (num_rays > rank)
+		{
+			triangulate_cone_with_4ti2(cone, Parameters, random_height,
+					&Parameters->triangulation_max_height, consumer);
+			return;
+		}
+	}
+	consumer.ConsumeCone(copyCone(cone));
+}
+
 void triangulate_cone_with_4ti2(listCone *cone, BarvinokParameters *Parameters,
 		height_function_type height_function, void *height_function_data,
 		ConeConsumer &consumer)
@@ -113,7 +143,7 @@ void triangulate_cone_with_4ti2(listCone *cone, BarvinokParameters *Parameters,
 		 a copy of the cone. */
 		//cerr << "Trivial test: Lifting heights yield trivial polyhedral subdivision." << endl;
 		Parameters->num_triangulations_with_trivial_heights++;
-		consumer.ConsumeCone(copyCone(cone));
+		consume_trivial_subdivision(cone, Parameters, consumer);
 		return;
 	}
 
@@ -123,7 +153,7 @@ void triangulate_cone_with_4ti2(listCone *cone, BarvinokParameters *Parameters,
 		//cerr << "Rank test: Lifting heights yield trivial polyhedral subdivision." << endl;
 		Parameters->num_triangulations_with_dependent_heights++;
 #ifndef DEBUG_RANKTEST
-		consumer.ConsumeCone(copyCone(cone));
+		consume_trivial_subdivision(cone, Parameters, consumer);
 		return;
 #endif
 	}
-- 
2.43.0


From ae975971378726124e684c8285f15f1178442523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 02/46] fix: draw new lifting heights when the CDD
 triangulation is not generic

Non-generic random heights yield lower faces that are not simplicial cones (or
none at all); the caller then wrote past the end of its matrices.
---
 code/latte/barvinok/Triangulation.cpp | 47 +++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/code/latte/barvinok/Triangulation.cpp b/code/latte/barvinok/Triangulation.cpp
index dfcad75..faaac8c 100644
--- a/code/latte/barvinok/Triangulation.cpp
+++ b/code/latte/barvinok/Triangulation.cpp
@@ -177,6 +177,23 @@ void readCDDicdFileRudy(int & face2, vec_ZZ & numOfPoints, mat_ZZ & Result) {
   return ; 
 }
 
+/* ----------------------------------------------------------------- */
+/* Check that the faces selected by NEG are the simplicial cones of a
+   triangulation, i.e., that the lifting heights were generic. */
+static bool heights_generic_p(const vec_ZZ & neg, int face3, const vec_ZZ & numOfPoints, int face2, int n) {
+  if (face2 != face3)
+    return false;
+  int count = 0;
+  for(int i = 0; i < face2; i++){
+    if(neg[i] == 1) {
+      if(numOfPoints[i] != n)
+        return false;
+      count++;
+    }
+  }
+  return count > 0;
+}
+
 /* ----------------------------------------------------------------- */
 
 // NEW TRIANGULATION FUNCTION TO REUSE PREVIOUSLY CALCULATED RESULTS
@@ -247,15 +264,33 @@ int Triangulation_Load_Save (const mat_ZZ & Mat, const int & m, const int & n, c
 	}	
   
   int face3 = 0, dim3 = 0;
-  
-  /////  read stuff from file
-  neg = readCDDineFileRudy(face3, dim3);
-  
   vec_ZZ numOfPoints;
   mat_ZZ Result;
   int face2 = 0;
-  /////// read stuff from file
-  readCDDicdFileRudy(face2,numOfPoints,Result);
+  int tries = 1;
+  while (1) {
+    /////  read stuff from file
+    neg = readCDDineFileRudy(face3, dim3);
+    /////// read stuff from file
+    readCDDicdFileRudy(face2,numOfPoints,Result);
+
+    /* The random lifting heights may fail to be generic; then the
+       lower faces do not give a triangulation, so lift again. */
+    if (heights_generic_p(neg, face3, numOfPoints, face2, n))
+      break;
+    if ((Flags & LOAD) && File_Present) {
+      cerr << "Triangulation_Load_Save: " << File_Path
+	   << " does not contain a triangulation." << endl;
+      exit(2);
+    }
+    if (tries++ >= 1000) {
+      cerr << "Triangulation_Load_Save: Unable to find generic lifting heights." << endl;
+      exit(2);
+    }
+    writeCDDextFileRudy(m,n,Mat);
+    system_with_error_check(shell_quote(relocated_pathname(CDD_PATH)) + " tri.ext > tri.out");
+    system_with_error_check("rm -f tri.out");
+  }
 
   int count = 0;
   int ZZToInt = 0;
-- 
2.43.0


From 6c19a8553c87e3cd11a98af17cc7bf38308dd85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 03/46] fix: dilate equations before deciding that they have no
 integer solution

With --dilation=N the right-hand side of the equations was dilated only after
the undilated equations had been solved over the integers, so e.g. 4x+2y=13
dilated by 2 was reported as integrally empty.
---
 code/latte/preprocess.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/code/latte/preprocess.cpp b/code/latte/preprocess.cpp
index 70a0b5c..48dab5b 100644
--- a/code/latte/preprocess.cpp
+++ b/code/latte/preprocess.cpp
@@ -248,7 +248,7 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 			sol.SetLength(*numOfVars);
 			Solve.SetDims(*numOfVars, *numOfVars);
 			for (i = 0; i < *numOfVars; i++) {
-				sol[i] = tmp -> first[0];
+				sol[i] = to_ZZ(dil) * tmp -> first[0];
 				for (j = 1; j < *numOfVars + 1; j++)
 					Solve[i][j - 1] = -tmp -> first[j];
 				tmp = tmp -> rest;
@@ -295,7 +295,7 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 		flag = 1;
 
 	while (tmp) {
-		rhs[ind2] = (tmp->first)[0];
+		rhs[ind2] = to_ZZ(dil) * (tmp->first)[0];
 		for (i = 0; i < (*numOfVars); i++) {
 			H[ind] = (tmp->first)[i + 1];
 			ind++;
@@ -570,7 +570,7 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 	for (i = 0; i < lengthListVector(inequalities); i++) {
 		a = tmp->first;
 		b = createVector(newNumOfVars + 1);
-		b[0] = a[0];
+		b[0] = to_ZZ(dil) * a[0];
 		for (k = 0; k < (*numOfVars); k++) {
 			b[0] = b[0] + a[k + 1] * particularSolution[k];
 		}
@@ -589,9 +589,6 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 		ZZ check_Tri;
 		for (int i = 1; i < newNumOfVars; i++)
 			check_Tri += abs(b[i]);
-		ZZ tmp_dil;
-		conv(tmp_dil, dil);
-		b[0] = tmp_dil * b[0];
 		if (check_Tri != 0) {
 			endNewInequalities->rest = createListVector(b);
 			endNewInequalities = endNewInequalities->rest;
-- 
2.43.0


From 02e202f9b33f62001f2cfa3dd4847aee58043ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 04/46] fix: reject a dilation of a V-representation in CDD
 format instead of ignoring it

---
 code/latte/ReadPolyhedron.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index 78ce1ac..0bc4fdd 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -615,6 +615,10 @@ ReadPolyhedronData::read_polyhedron_hairy(BarvinokParameters *params) {
 				<< "because it is unimplemented for the CDD-style input format. "
 				<< endl;
 		M = ReadCddStyleMatrix(filename);
+		if (M->representation == dd_Generator && dilation_const != 1) {
+			cerr << "Dilation unimplemented for V-representations" << endl;
+			THROW_LATTE(LattException::ue_BadCommandLineOption, 0);
+		}
 	} else {
 		/* Read an input file in LattE format. */
 		if (Vrepresentation[0] == 'y') {
-- 
2.43.0


From 3092d76e288e77928b412c457a4ab17d413a8303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:22 +0000
Subject: [PATCH 05/46] fix: refuse a knapsack list whose greatest common
 divisor is not one

---
 code/latte/top-knapsack/TopKnapsack.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/code/latte/top-knapsack/TopKnapsack.cpp b/code/latte/top-knapsack/TopKnapsack.cpp
index 67cd4df..d773168 100644
--- a/code/latte/top-knapsack/TopKnapsack.cpp
+++ b/code/latte/top-knapsack/TopKnapsack.cpp
@@ -244,6 +244,14 @@ void TopKnapsack::coeff(int k)
 {
 
 	assert(0 <= k && k<= N);
+
+	//the Mobius values and expandF1Case() rely on this.
+	ZZ listGCD;
+	for (int i = 0; i < alpha.length(); ++i)
+		listGCD = GCD(listGCD, alpha[i]);
+	if (listGCD != 1)
+		THROW_LATTE_MSG(LattException::ue_BadFileOption, 1, "the greatest common divisor of the knapsack list is not one");
+
 	order = k;
 	cout << "order=" << order << endl;
 	coeffsNminusk.resize(k+1);
-- 
2.43.0


From 25e241c2c3b76dae540e7b96d9eefa3a292a7279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 06/46] fix: read rational vertices when the vertex
 representation is homogenized

---
 code/latte/ReadPolyhedron.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index 0bc4fdd..41f0762 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -922,11 +922,16 @@ Polyhedron *PolyhedronFromVrepMatrix(dd_MatrixPtr matrix, bool homogenize) {
 		for (i = 1; i <= matrix->rowsize; i++) {
 			if (!set_member(i, redundant)) {
 				int j;
-				/* CDD has homogenization in the 0-th,
-				 LattE expects it in the last coordinate. */
-				for (j = 0; j < matrix->colsize - 1; j++)
-					ray[j] = convert_mpq_to_ZZ(matrix->matrix[i - 1][j + 1]);
-				ray[matrix->colsize - 1] = convert_mpq_to_ZZ(matrix->matrix[i - 1][0]);
+				mpz_class scale = 1; /* A vertex may be rational, its ray is integer. */
+				for (j = 0; j < matrix->colsize; j++)
+					scale = lcm(scale, mpq_class(matrix->matrix[i - 1][j]).get_den());
+				for (j = 0; j < matrix->colsize; j++) {
+					mpq_class coordinate = scale * mpq_class(matrix->matrix[i - 1][j]);
+					/* CDD has homogenization in the 0-th,
+					 LattE expects it in the last coordinate. */
+					ray[j == 0 ? matrix->colsize - 1 : j - 1]
+						= convert_mpq_to_ZZ(coordinate.get_mpq_t());
+				}
 				cone->rays = appendVectorToListVector(ray, cone->rays);
 				cone->vertex = new Vertex(createRationalVector(P->numOfVars));
 			}
-- 
2.43.0


From 8831ebef153dbc8036c27a066249f5b87d17f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 07/46] fix: integrate products with repeated, constant or
 cancelling factors, and repeated monomials

---
 code/latte/integration/PolyTrie.cpp        | 34 ++++++++++++++++++++--
 code/latte/integration/newIntegration.cpp  |  5 ++--
 code/latte/valuation/PolytopeValuation.cpp |  8 +++--
 3 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/code/latte/integration/PolyTrie.cpp b/code/latte/integration/PolyTrie.cpp
index 0d1a9cd..89f9ad5 100644
--- a/code/latte/integration/PolyTrie.cpp
+++ b/code/latte/integration/PolyTrie.cpp
@@ -363,6 +363,11 @@ void parseLinFormProducts(FormProductLoadConsumer<RationalNTL>* consumer, const
 	int degree;
 	RationalNTL coefficient;
 
+	//the factors of the current product. The same linear form may occur several times.
+	vector<int> degrees;
+	vector<vec_ZZ> factors;
+	size_t sameFactor;
+
 	int productIndex = 0;
 	for (int i = 1; i < line.length() - 1; i++) //ignore outermost square brackets
 	{
@@ -411,8 +416,15 @@ void parseLinFormProducts(FormProductLoadConsumer<RationalNTL>* consumer, const
 					//for(int w = 0; w < coefs.length(); ++w)
 					//	cout << coefs[w] << ", ";
 					//cout << "into " << productIndex << endl;
-					consumer->ConsumeLinForm(productIndex, coefficient, degree, coefs);
-					coefficient = 1; //the other coefficients in this product are 1.
+					for (sameFactor = 0; sameFactor < factors.size() && factors[sameFactor] != coefs; ++sameFactor)
+						;
+					if (sameFactor < factors.size())
+						degrees[sameFactor] += degree; //l^a * l^b = l^(a+b)
+					else
+					{
+						factors.push_back(coefs);
+						degrees.push_back(degree);
+					}
 
 					for(; line[i] != ']'; ++i); //end of linear form list: [[p, [l]] ]
 					//for(; line[i] != ']'; ++i); //end of linear form list: [[[p, [l]] ]
@@ -431,6 +443,24 @@ void parseLinFormProducts(FormProductLoadConsumer<RationalNTL>* consumer, const
 							break;
 						}
 					}
+					if (flag == 0 && coefficient != 0)
+					{
+						bool isConstant = true;
+						for (size_t j = 0; j < factors.size(); ++j)
+							if (degrees[j] != 0)
+							{
+								consumer->ConsumeLinForm(productIndex, coefficient, degrees[j], factors[j]);
+								coefficient = 1; //the other coefficients in this product are 1.
+								isConstant = false;
+							}
+						if (isConstant)
+							consumer->ConsumeLinForm(productIndex, coefficient, 0, coefs);
+					}
+					if (flag == 0)
+					{
+						factors.clear();
+						degrees.clear();
+					}
 					break;
 				default: //error
 					cout << "Flag is " << flag << ", error." << endl;
diff --git a/code/latte/integration/newIntegration.cpp b/code/latte/integration/newIntegration.cpp
index 58aef7a..08ab1cd 100644
--- a/code/latte/integration/newIntegration.cpp
+++ b/code/latte/integration/newIntegration.cpp
@@ -477,7 +477,7 @@ RationalNTL integrateLinFormProducts(PolyIterator<RationalNTL, ZZ>* it, const si
 	finalPoly->setTrie(polynomialProduct.myMonomials, polynomialProduct.varCount);
 	finalPoly->begin();
 	term<RationalNTL, int>* storedTerm;
-	bool found;
+	bool found = false;
 	while ((storedTerm = finalPoly->nextTerm()) != 0)
 	{
 		found = true;
@@ -494,7 +494,8 @@ RationalNTL integrateLinFormProducts(PolyIterator<RationalNTL, ZZ>* it, const si
 			break;
 		}//found coeff. of highest term.
 	}//while
-	assert(found == true);
+	if (found == false)
+		answer = 0; //zero coefficients are not stored.
 
 	return answer;
 }//integrateLinFormProducts
diff --git a/code/latte/valuation/PolytopeValuation.cpp b/code/latte/valuation/PolytopeValuation.cpp
index 66f51ad..2ff9d01 100644
--- a/code/latte/valuation/PolytopeValuation.cpp
+++ b/code/latte/valuation/PolytopeValuation.cpp
@@ -246,7 +246,8 @@ void PolytopeValuation::dilatePolynomialToLinearForms(linFormSum &linearForms, c
 		}//insert the non-constant monomial
 	}//for every term in the originalPolynomial
 
-	assert(originalPolynomial.termCount == transformedPolynomial.termCount + numberConstantTerms
+	//(termCount counts repeated monomials of the input, which the trie has merged, and we do not insert zero terms.)
+	assert(originalPolynomial.termCount >= transformedPolynomial.termCount + numberConstantTerms
 			&& originalPolynomial.varCount == transformedPolynomial.varCount );
 	assert(numberConstantTerms <= 1);
 
@@ -539,6 +540,9 @@ RationalNTL PolytopeValuation::findIntegral(const linFormProductSum& originalLin
     //after this call, linearForms is filled in, and constantMonomial is the constant term in the input polynomial.
 	for(int i = 0; i < originalLinearFormProducts.myFormProducts.size(); ++i)
 	{
+		if ( originalLinearFormProducts[i].termCount == 0)
+			continue; //the coefficient is zero.
+
 		linFormSum linearForms;
 		RationalNTL currentConstantMonomial;
 		dilateLinearForms(linearForms, originalLinearFormProducts[i], dilationFactor, currentConstantMonomial);
@@ -551,7 +555,7 @@ RationalNTL PolytopeValuation::findIntegral(const linFormProductSum& originalLin
 
 		if ( currentConstantMonomial != 0)
 			constantMonomial += currentConstantMonomial;
-		else
+		else if ( linearForms.termCount > 0)
 		{
 			linearFormProducts.addProduct(linearForms);
 		}//add the new product of linear forms.
-- 
2.43.0


From 33eeb842322a7e64865e82f5a7b39cd23f015836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 08/46] fix: project every lattice point of a non-unimodular
 cone up when there are equations

---
 code/latte/ProjectUp.cpp | 32 +++++++-------------------------
 1 file changed, 7 insertions(+), 25 deletions(-)

diff --git a/code/latte/ProjectUp.cpp b/code/latte/ProjectUp.cpp
index 8e866c7..6f68e6b 100644
--- a/code/latte/ProjectUp.cpp
+++ b/code/latte/ProjectUp.cpp
@@ -121,35 +121,17 @@ listCone* ProjectUp2(listCone* cone, int & oldNumOfVars, int & newNumOfVars,
   
   while(current_cone)
     {
-      /* FIXME: Handle non-unimodular cones */
       assert(current_cone->latticePoints != NULL);
-      assert(current_cone->latticePoints->rest == NULL);
       
-      //  cerr << " Here 1" << endl;
-      i = 0;
-      newVector = b;
-      
-      for(i = 0; i < oldNumOfVars; i++){	  
-	newVector[i] += AA[i] * current_cone->latticePoints->first;
+      /* A non-unimodular cone has several lattice points. */
+      listVector *point;
+      for (point = current_cone->latticePoints; point; point = point->rest) {
+	newVector = b;
+	for(i = 0; i < oldNumOfVars; i++)
+	  newVector[i] += AA[i] * point->first;
+	point->first = newVector;
       }
-      
-      //  cerr << " Here 2" << endl;
-      /*    for(i = oldNumOfVars - newNumOfVars; i < oldNumOfVars; i++)
-	    {
-	    newVector[i] = current_cone->latticePoints->first[i - oldNumOfVars + newNumOfVars];
-	    }*/
-	// cerr << " Here 3" << endl;
-      delete current_cone->latticePoints;
-      current_cone->latticePoints = new listVector;
-      current_cone->latticePoints->rest = NULL;
-      
-      current_cone->latticePoints->first.SetLength(oldNumOfVars);
-      //  cerr << " Here 4" << endl;
-      for(i = 0; i < oldNumOfVars; i++)
-	current_cone->latticePoints->first[i] = newVector[i];
 
-      /* FIXME: Handle the vertex. */
-      
       current_ray = current_cone->rays;
       new_ray = new listVector;
       current_cone->rays = new_ray;
-- 
2.43.0


From 6338b1442874e85c0097dad6186a77c3e4674e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 09/46] fix: perturb the cost vector by less than one unit of
 cost when maximizing or minimizing

---
 code/latte/ConeInfo.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/code/latte/ConeInfo.cpp b/code/latte/ConeInfo.cpp
index 886ca84..f5c3b2a 100644
--- a/code/latte/ConeInfo.cpp
+++ b/code/latte/ConeInfo.cpp
@@ -1462,7 +1462,7 @@ vec_ZZ	Calculate_Pertubation (listCone *cones, vec_ZZ *Cost, int Mod_Value, int
 				if (tmpVector->first[i] >= 0 && tmpVector->first[i] > Maximum_Coordinate)
 					Maximum_Coordinate = tmpVector->first[i];
 				if (tmpVector->first[i] <= 0 && -1* tmpVector->first[i] > Maximum_Coordinate)
-					Maximum_Coordinate = tmpVector->first[i];
+					Maximum_Coordinate = -1 * tmpVector->first[i];
 
 		
 			}
@@ -1470,6 +1470,22 @@ vec_ZZ	Calculate_Pertubation (listCone *cones, vec_ZZ *Cost, int Mod_Value, int
 			tmpVector = tmpVector->rest;
 		}	
 
+		// The perturbation must not outweigh the cost difference of
+		// any two lattice points of the polytope either.
+		if (tmpcone->vertex != NULL && tmpcone->vertex->vertex != NULL)
+		{
+			const vec_ZZ &numerators = tmpcone->vertex->vertex->numerators();
+			const vec_ZZ &denominators = tmpcone->vertex->vertex->denominators();
+
+			for (int i=0; i < Number_of_Variables; i++)
+			{
+				ZZ	Coordinate = abs(numerators[i]) / abs(denominators[i]) + 1;
+
+				if (Coordinate > Maximum_Coordinate)
+					Maximum_Coordinate = Coordinate;
+			}
+		}
+
 		tmpcone = tmpcone->rest;
 	}
 	
-- 
2.43.0


From 8e14686fd9f3eaf2dc73c4a76ad20b2b4615dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 10/46] fix: binary search optimization with empty slices and
 the sign of a minimum

---
 code/latte/binarySearchIP.cpp | 39 ++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/code/latte/binarySearchIP.cpp b/code/latte/binarySearchIP.cpp
index 24d80af..d5d9afe 100644
--- a/code/latte/binarySearchIP.cpp
+++ b/code/latte/binarySearchIP.cpp
@@ -159,16 +159,31 @@ void createLatteFileEqu(listVector* matrix, listVector* ineq, int numOfVars, ZZ
 }
 /* ----------------------------------------------------------------- */
 
-ZZ OptimalCheckEqu(listVector* matrix, listVector* ineq, int numOfVars, ZZ rhs, vec_ZZ lhs)
+/* Counts the lattice points of the polyhedron in the file latte_BS.
+   `count' fails if that polyhedron is empty, but then it has written that there are 0 lattice points. */
+static ZZ countLatticePoints()
 {
   ZZ NumOfLatticePoints;
 
-  //system_with_error_check("rm numOfLatticePoints");
-  createLatteFileEqu(matrix, ineq, numOfVars + 1, rhs, lhs);
-  system_with_error_check(shell_quote(relocated_pathname(string(INSTALLPREFIX) + "/bin/count")) + " latte_BS > latte_BS.out");
+  system_with_error_check("rm -f numOfLatticePoints");
+  int status = system((shell_quote(relocated_pathname(string(INSTALLPREFIX) + "/bin/count")) + " latte_BS > latte_BS.out").c_str());
 
   ifstream in("numOfLatticePoints");
-  in >> NumOfLatticePoints;
+  if (!(in >> NumOfLatticePoints) || (status != 0 && !IsZero(NumOfLatticePoints))) {
+    cerr << "Counting the lattice points of latte_BS failed with status " << status << "." << endl;
+    exit(1);
+  }
+  return NumOfLatticePoints;
+}
+
+/* ----------------------------------------------------------------- */
+
+ZZ OptimalCheckEqu(listVector* matrix, listVector* ineq, int numOfVars, ZZ rhs, vec_ZZ lhs)
+{
+  ZZ NumOfLatticePoints;
+
+  createLatteFileEqu(matrix, ineq, numOfVars + 1, rhs, lhs);
+  NumOfLatticePoints = countLatticePoints();
   system_with_error_check("rm -f latte_BS*");
 
   return NumOfLatticePoints;
@@ -215,15 +230,8 @@ ZZ OptimalCheck(listVector* matrix, listVector* ineq, int numOfVars, ZZ rhs, vec
 {
   ZZ NumOfLatticePoints;
 
-  //system_with_error_check("rm -f numOfLatticePoints");
   createLatteFile(matrix, ineq, numOfVars + 1, rhs, lhs);
-  if(lengthListVector(matrix) != 0)
-    system_with_error_check("time " + shell_quote(relocated_pathname(string(INSTALLPREFIX) + "/bin/count")) + " latte_BS > latte_BS.out");
-  else
-    system_with_error_check("time " + shell_quote(relocated_pathname(string(INSTALLPREFIX) + "/bin/count")) + " latte_BS > latte_BS.out");
-
-  ifstream in("numOfLatticePoints");
-  in >> NumOfLatticePoints;
+  NumOfLatticePoints = countLatticePoints();
 
   ifstream in2("numOfUnimodularCones");
   ZZ numOfUniCones;
@@ -298,7 +306,10 @@ ZZ binarySearch(listVector* matrix, listVector* ineq, vec_ZZ cost, int numOfVars
       }
 
       if(IsZero(Opt) == 0){
-        cerr << "The optimal value: " << high - 1 << endl << endl;
+        high -= 1;
+        if(min[0] == 'y')
+          high = -high;
+        cerr << "The optimal value: " << high << endl << endl;
 	return Opt;
 	}
        else{
-- 
2.43.0


From 77a4ada160de2e1493737ee6a95a058035463d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 11/46] fix: detect missing, stale and incomplete CDD files and
 failed writes instead of computing with them

---
 code/latte/CheckEmpty.cpp             |  10 ++-
 code/latte/barvinok/Triangulation.cpp |  34 ++++++--
 code/latte/binarySearchIP.cpp         |  11 ++-
 code/latte/dual.cpp                   |  11 ++-
 code/latte/latte_system.cpp           |  49 +++++++++++
 code/latte/latte_system.h             |  17 ++++
 code/latte/vertices/cdd.cpp           | 114 ++++++++++++++++++++------
 7 files changed, 204 insertions(+), 42 deletions(-)

diff --git a/code/latte/CheckEmpty.cpp b/code/latte/CheckEmpty.cpp
index 91fecc7..1a3c464 100644
--- a/code/latte/CheckEmpty.cpp
+++ b/code/latte/CheckEmpty.cpp
@@ -92,6 +92,7 @@ void CheckEmpty(const char * Filename){
  for(int i = 0; i < numOfConsts; i++)
     for(int j = 0; j < numOfDims; j++)
       { in >> entries[i][j]; }
+  check_reading(in, Filename);
  //  cerr << "here3" << endl;
  // printListVector(CheckRedIneq(entries), numOfDims);
  if((equ[0] == 'y') && (flag == 0)){ in >> numOfEqu;
@@ -146,6 +147,7 @@ void CheckEmpty(const char * Filename){
   for(int j = 1; j < numOfDims; j++){
     out << entries[0][j] << " "; }
   out << endl;
+  close_with_error_check(out, "Check_emp.lp");
 
   /* CDD+ has a zero exit status even if an error occurs.  So make
      sure the output file is not there before, then check for the
@@ -154,7 +156,7 @@ void CheckEmpty(const char * Filename){
   system_with_error_check("rm -f Check_emp.lps");
   system_with_error_check(shell_quote(relocated_pathname(CDD_PATH)) + " Check_emp.lp > Check_emp.out");
 
-  int FLAG = 0;
+  int FLAG = 0, complete = 0;
 
   ifstream IN3("Check_emp.lps");
   if(!IN3){
@@ -166,6 +168,11 @@ void CheckEmpty(const char * Filename){
     if((tmpString == "primal_solution") || ( tmpString == "primal_direction")){
       FLAG = 1;
     }
+    if(tmpString == "end") complete = 1;
+  }
+  if(!complete){
+    cerr << "The file `Check_emp.lps' is incomplete.  See `Check_emp.out'." << endl;
+    exit(1);
   }
 
   //  system_with_error_check("rm Check_emp.*");
@@ -174,6 +181,7 @@ void CheckEmpty(const char * Filename){
     cerr << "Empty polytope or unbounded polytope!"<< endl;
     ofstream NOL("numOfLatticePoints");
     NOL << 0 << endl;
+    close_with_error_check(NOL, "numOfLatticePoints");
     THROW_LATTE(LattException::pe_Unbounded,0);
   }
   cerr << "done." << endl;
diff --git a/code/latte/barvinok/Triangulation.cpp b/code/latte/barvinok/Triangulation.cpp
index faaac8c..f8a530b 100644
--- a/code/latte/barvinok/Triangulation.cpp
+++ b/code/latte/barvinok/Triangulation.cpp
@@ -74,11 +74,19 @@ void writeCDDextFileRudy(const int & m, const int & n, const mat_ZZ & Mat) {
    OUT << "end" << endl;
    OUT << "incidence" << endl;
    //OUT << "input_adjacency" << endl;
-   OUT.close();
+   close_with_error_check(OUT, "tri.ext");
 
   return ;
 }
 /* ----------------------------------------------------------------- */
+/* CDD+ has a zero exit status even if an error occurs, so make sure
+   that files left over from an earlier run are not taken for its output. */
+static void runCDDRudy() {
+  remove_if_exists("tri.ine");
+  remove_if_exists("tri.icd");
+  system_with_error_check(shell_quote(relocated_pathname(CDD_PATH)) + " tri.ext > tri.out");
+}
+/* ----------------------------------------------------------------- */
 vec_ZZ readCDDineFileRudy(int& face3, int& dim3) {
    ifstream IN;
    IN.open("tri.ine");
@@ -90,10 +98,10 @@ vec_ZZ readCDDineFileRudy(int& face3, int& dim3) {
     }
 
    string trash2;
-   while(trash2 != "begin")
-     getline(IN, trash2);
+   skip_to_line(IN, "begin", "tri.ine");
 
    IN >> face3 >> dim3;
+   check_reading(IN, "tri.ine");
 
    vec_ZZ neg;
    neg.SetLength(face3);
@@ -113,6 +121,7 @@ vec_ZZ readCDDineFileRudy(int& face3, int& dim3) {
        if(trash2[0] == '0')
          neg[i] = 2;
    }
+   skip_to_word(IN, "end", "tri.ine");
 
   return(neg); 
 }
@@ -132,10 +141,10 @@ void readCDDicdFileRudy(int & face2, vec_ZZ & numOfPoints, mat_ZZ & Result) {
   int num;
   string tmp;
   
-  while(tmp != "begin")
-    getline(File3, tmp);
+  skip_to_line(File3, "begin", "tri.icd");
   
   File3 >> face2 >> num;
+  check_reading(File3, "tri.icd");
   Result.SetDims(face2, num);
   numOfPoints.SetLength(face2);
   char trash;
@@ -152,6 +161,11 @@ void readCDDicdFileRudy(int & face2, vec_ZZ & numOfPoints, mat_ZZ & Result) {
   int k = 0;
   for(int i = 0; i < face2; i++){
     File3 >> k >> numOfPoints[i] >> trash;
+    check_reading(File3, "tri.icd");
+    if (abs(numOfPoints[i]) > num) {
+      cerr << "Malformed file tri.icd." << endl;
+      exit(5);
+    }
     if(numOfPoints[i] >= 0) {
       for(int j = 0; j < numOfPoints[i]; j++) { File3 >> Result[i][j]; }
     }
@@ -161,7 +175,8 @@ void readCDDicdFileRudy(int & face2, vec_ZZ & numOfPoints, mat_ZZ & Result) {
       int j = 0;
       for (int n = 0; n < num - numOfPoints[i]; ++n) {
           File3 >> k;
-          while (r < k) {
+          check_reading(File3, "tri.icd");
+          while (r < k && j < num) {
             Result[i][j++] = r++;
           }
           ++r;
@@ -172,6 +187,7 @@ void readCDDicdFileRudy(int & face2, vec_ZZ & numOfPoints, mat_ZZ & Result) {
     }
   }
   
+  skip_to_word(File3, "end", "tri.icd");
   File3.close();
   
   return ; 
@@ -241,7 +257,7 @@ int Triangulation_Load_Save (const mat_ZZ & Mat, const int & m, const int & n, c
 
 			cerr << "Triangulation_Load_Save: File not present.  Calculating triangulation." << endl;
   			writeCDDextFileRudy(m,n,Mat);
-  			system_with_error_check(shell_quote(relocated_pathname(CDD_PATH)) + " tri.ext > tri.out");
+  			runCDDRudy();
   			system_with_error_check("rm -f tri.out");
 		}	
 		else
@@ -259,7 +275,7 @@ int Triangulation_Load_Save (const mat_ZZ & Mat, const int & m, const int & n, c
 	{
 
   			writeCDDextFileRudy(m,n,Mat);
-  			system_with_error_check(shell_quote(relocated_pathname(CDD_PATH)) + " tri.ext > tri.out");
+  			runCDDRudy();
   			system_with_error_check("rm -f tri.out");
 	}	
   
@@ -288,7 +304,7 @@ int Triangulation_Load_Save (const mat_ZZ & Mat, const int & m, const int & n, c
       exit(2);
     }
     writeCDDextFileRudy(m,n,Mat);
-    system_with_error_check(shell_quote(relocated_pathname(CDD_PATH)) + " tri.ext > tri.out");
+    runCDDRudy();
     system_with_error_check("rm -f tri.out");
   }
 
diff --git a/code/latte/binarySearchIP.cpp b/code/latte/binarySearchIP.cpp
index d5d9afe..d5fa207 100644
--- a/code/latte/binarySearchIP.cpp
+++ b/code/latte/binarySearchIP.cpp
@@ -73,7 +73,7 @@ void createCddIneLPFile2(listVector* matrix, listVector* ineq, int numOfVars, ve
   for(i = 0; i < numOfVars - 1; i++)
     OUT << cost[i] << " ";
   OUT << endl;
-  OUT.close();
+  close_with_error_check(OUT, "LP.ine");
 
   return ;
 }
@@ -93,11 +93,12 @@ rationalVector* ReadLpsFile2(int numOfVars)
     exit(1);
   }
 
-  while (tmpString!="begin") getline(in,tmpString);
+  skip_to_line(in, "begin", "LP.lps");
   in >> tmpString;
   for(int i = 0; i < numOfVars; i++)
     {
       in >> tmpString >> tmpString;
+      check_reading(in, "LP.lps");
 
       x=0;
       y=0;
@@ -105,6 +106,7 @@ rationalVector* ReadLpsFile2(int numOfVars)
       OptVector->set_entry(i, x, y);
 
     }
+  skip_to_word(in, "end", "LP.lps");
   cerr <<"done." << endl;
   return OptVector;
 }
@@ -115,6 +117,7 @@ rationalVector* LP2(listVector* matrix, listVector* ineq, vec_ZZ& cost, int numO
   rationalVector* Opt_vector;
    createCddIneLPFile2(matrix, ineq, numOfVars+1, cost);
    cerr << "Computing LP...";
+   remove_if_exists("LP.lps");
    system_with_error_check(shell_quote(relocated_pathname(CDD_PATH)) + " LP.ine > LP.out");
   cerr << "done.\n\n";
   Opt_vector = ReadLpsFile2(numOfVars);
@@ -153,7 +156,7 @@ void createLatteFileEqu(listVector* matrix, listVector* ineq, int numOfVars, ZZ
     OUT << "linearity " << 1 + lengthListVector(matrix) << " " << 1 << " ";
     for(i = 0; i < lengthListVector(matrix); i++) OUT << 2 + i << " ";
     OUT << endl;
-  OUT.close();
+  close_with_error_check(OUT, "latte_BS");
 
   return ;
 }
@@ -220,7 +223,7 @@ void createLatteFile(listVector* matrix, listVector* ineq, int numOfVars, ZZ rhs
     OUT << "linearity " << lengthListVector(matrix) << " ";
     for(i = 0; i < lengthListVector(matrix); i++) OUT << 1 + i << " ";
     OUT << endl;     }
-  OUT.close();
+  close_with_error_check(OUT, "latte_BS");
 
   return ;
 }
diff --git a/code/latte/dual.cpp b/code/latte/dual.cpp
index ba688b5..b218eaf 100644
--- a/code/latte/dual.cpp
+++ b/code/latte/dual.cpp
@@ -101,7 +101,11 @@ static void dualizeCone_with_cdd(listCone *tmp, int numOfVars)
     rays=rays->rest;
   }
   out << "end\n";
-  out.close();
+  close_with_error_check(out, cddInFileName);
+
+  /* CDD+ has a zero exit status even if an error occurs, so make sure
+     that a file left over from an earlier run is not taken for its output. */
+  remove_if_exists("latte_cdd.ext");
 
   /*      printf("Computing facets with cdd..."); */
   system_with_error_check(shell_quote(relocated_pathname(CDD_PATH)) + " latte_cdd.ine > latte_cdd.out");
@@ -115,9 +119,10 @@ static void dualizeCone_with_cdd(listCone *tmp, int numOfVars)
     exit(1);
   }
 
-  while (tmpString!="begin") getline(in,tmpString);
+  skip_to_line(in, "begin", cddInFileName);
 
   in >> numOfVertices >> tmpInt >> tmpString;
+  check_reading(in, cddInFileName);
 
   facets=createListVector(createVector(numOfVars));
   endFacets=facets;
@@ -128,6 +133,7 @@ static void dualizeCone_with_cdd(listCone *tmp, int numOfVars)
       x=0;
       y=0;
       ReadCDD(in,x,y);
+      check_reading(in, cddInFileName);
       if (j>0) {
 	w->set_entry(j-1, x, y, true /* avoid recomputation of
 					integer scale */);
@@ -138,6 +144,7 @@ static void dualizeCone_with_cdd(listCone *tmp, int numOfVars)
     delete w;
     endFacets=endFacets->rest;
   }
+  skip_to_word(in, "end", cddInFileName);
   in.close();
 #if 0
   system_with_error_check("rm -f latte_cdd.*");
diff --git a/code/latte/latte_system.cpp b/code/latte/latte_system.cpp
index 4984b7c..2355906 100644
--- a/code/latte/latte_system.cpp
+++ b/code/latte/latte_system.cpp
@@ -21,6 +21,7 @@
 #include <cstdlib>
 #include <cstdio>
 #include <iostream>
+#include <fstream>
 #include <cassert>
 #include <climits>
 #include <sys/stat.h>
@@ -78,6 +79,54 @@ rename_with_error_check(const string &old_name, const string &new_name)
   }
 }
 
+void
+close_with_error_check(ofstream &out, const string &name)
+{
+  out.close();
+  if (!out) {
+    cerr << "Writing file `" << name << "' failed." << endl;
+    exit(1);
+  }
+}
+
+void
+check_reading(const istream &in, const string &name)
+{
+  if (!in) {
+    cerr << "Reading file `" << name << "' failed: it is missing, incomplete or malformed." << endl;
+    exit(1);
+  }
+}
+
+void
+skip_to_line(istream &in, const string &text, const string &name)
+{
+  string line;
+  do {
+    getline(in, line);
+    check_reading(in, name);
+  } while (line != text);
+}
+
+void
+skip_to_word(istream &in, const string &text, const string &name)
+{
+  string word;
+  do {
+    in >> word;
+    check_reading(in, name);
+  } while (word != text);
+}
+
+void
+remove_if_exists(const string &name)
+{
+  if (unlink(name.c_str()) != 0 && errno != ENOENT) {
+    cerr << "Removing file `" << name << "' failed, errno: " << errno << "." << endl;
+    exit(1);
+  }
+}
+
 static bool created_temp_dir = false;
 static string temp_dir;
 
diff --git a/code/latte/latte_system.h b/code/latte/latte_system.h
index cbe7964..b555dba 100644
--- a/code/latte/latte_system.h
+++ b/code/latte/latte_system.h
@@ -24,6 +24,7 @@
 #define LATTE_SYSTEM_H
 
 #include <string>
+#include <iosfwd>
 
 // Execute COMMAND with the system shell.
 // When COMMAND returns with a nonzero error status,
@@ -38,6 +39,22 @@ std::string shell_quote(const std::string &argument);
 void
 rename_with_error_check(const std::string &old_name, const std::string &new_name);
 
+// Close the file stream OUT; report and exit the program when opening,
+// writing or closing the file NAME failed.
+void close_with_error_check(std::ofstream &out, const std::string &name);
+
+// Report and exit the program when reading the file NAME through IN
+// has failed.
+void check_reading(const std::istream &in, const std::string &name);
+
+// Read the file NAME through IN up to and including a line (a word) that is TEXT;
+// report and exit the program when there is none.
+void skip_to_line(std::istream &in, const std::string &text, const std::string &name);
+void skip_to_word(std::istream &in, const std::string &text, const std::string &name);
+
+// Remove the file NAME if it exists; report and exit the program on failure.
+void remove_if_exists(const std::string &name);
+
 // Functions for storing intermediate data in a secure temporary
 // directory.  (More importantly, different runs of LattE are isolated
 // from each other.)  The  function `temporary_directory_name' returns
diff --git a/code/latte/vertices/cdd.cpp b/code/latte/vertices/cdd.cpp
index 77edb13..c6bf7b3 100644
--- a/code/latte/vertices/cdd.cpp
+++ b/code/latte/vertices/cdd.cpp
@@ -142,7 +142,7 @@ void createCddIneFile(listVector* matrix, int numOfVars)
 	OUT << "end" << endl;
 	OUT << "adjacency" << endl;
 	OUT << "incidence" << endl;
-	OUT.close();
+	close_with_error_check(OUT, "latte_cdd.ine");
 
 	return;
 }
@@ -182,7 +182,7 @@ void createCddIneFile(const dd_MatrixPtr M)
 	}//if equations exist
 
 
-	OUT.close();
+	close_with_error_check(OUT, "latte_cdd.ine");
 
 	return;
 }//createCddIneFile
@@ -206,7 +206,7 @@ void createLrsIneFile(listVector* matrix, int numOfVars)
 		tmp = tmp->rest;
 	}
 	OUT << "end" << endl;
-	OUT.close();
+	close_with_error_check(OUT, "latte_lrs.ine");
 
 	return;
 }
@@ -221,8 +221,7 @@ void createLrsIneFileToPostAnalysys(listVector* matrix, int numOfVars)
 	in.open("latte_lrs.ine");
 	int x, y;
 	string tmpString;
-	while (tmpString != "begin")
-		getline(in, tmpString);
+	skip_to_line(in, "begin", "latte_lrs.ine");
 	OUT << "H-representation" << endl;
 	OUT << "begin" << endl;
 	in >> x >> y;
@@ -231,13 +230,14 @@ void createLrsIneFileToPostAnalysys(listVector* matrix, int numOfVars)
 	while (tmpString != "end")
 	{
 		getline(in, tmpString);
+		check_reading(in, "latte_lrs.ine");
 		OUT << tmpString << endl;
 	}
 
 	OUT << "postanalysis " << endl;
 	OUT << "adjacency" << endl;
 
-	OUT.close();
+	close_with_error_check(OUT, "latte_cdd.ine");
 
 	return;
 }
@@ -252,17 +252,16 @@ void createLrsExtFileToPostAnalysys(listVector* matrix, int numOfVars)
 	in2.open("latte_lrs.ext");
 	int counter = 0;
 	string tmpString;
-	while (tmpString != "begin")
-		getline(in2, tmpString);
+	skip_to_line(in2, "begin", "latte_lrs.ext");
 	getline(in2, tmpString);
 	while (tmpString != "end")
 	{
 		getline(in2, tmpString);
+		check_reading(in2, "latte_lrs.ext");
 		counter++;
 	}
 	counter--;
-	while (tmpString != "begin")
-		getline(in, tmpString);
+	skip_to_line(in, "begin", "latte_lrs.ext");
 	OUT << "V-representation" << endl;
 	OUT << "begin" << endl;
 	getline(in, tmpString);
@@ -270,12 +269,13 @@ void createLrsExtFileToPostAnalysys(listVector* matrix, int numOfVars)
 	while (tmpString != "end")
 	{
 		getline(in, tmpString);
+		check_reading(in, "latte_lrs.ext");
 		OUT << tmpString << endl;
 	}
 
 	OUT << "hull " << endl;
 
-	OUT.close();
+	close_with_error_check(OUT, "latte_cdd.ext");
 
 	return;
 }
@@ -302,7 +302,7 @@ void createCddExtFile(listVector* matrix, int numOfVars)
 	}
 	OUT << "end" << endl;
 	OUT << "hull" << endl;
-	OUT.close();
+	close_with_error_check(OUT, "latte_cdd.ext1");
 
 	return;
 }
@@ -329,11 +329,12 @@ void createCddExtFile2(const char* filename)
 	for (i = 0; i < numOfVec; i++)
 	{
 		getline(in, tmpString);
+		check_reading(in, filename);
 		OUT << tmpString << endl;
 	}
 	OUT << "end" << endl;
 	OUT << "hull" << endl;
-	OUT.close();
+	close_with_error_check(OUT, "latte_cdd.ext");
 
 	return;
 }
@@ -363,7 +364,7 @@ void createCddExtFile2(const dd_MatrixPtr M)
 	}
 	OUT << "end" << endl;
 	OUT << "hull" << endl;
-	OUT.close();
+	close_with_error_check(OUT, "latte_cdd.ext");
 
 	return;
 }//createCddExtFile2
@@ -396,7 +397,7 @@ void createCddIneLPFile(listVector* matrix, int numOfVars, vec_ZZ & cost)
 	for (i = 0; i < numOfVars - 1; i++)
 		OUT << cost[i] << " ";
 	OUT << endl;
-	OUT.close();
+	close_with_error_check(OUT, "LP.ine");
 
 	return;
 }
@@ -421,12 +422,12 @@ rationalVector* ReadLpsFile(int numOfVars, bool verbose = true)
 		exit(1);
 	}
 
-	while (tmpString != "begin")
-		getline(in, tmpString);
+	skip_to_line(in, "begin", "LP.lps");
 	in >> tmpString;
 	for (int i = 0; i < numOfVars; i++)
 	{
 		in >> tmpString >> tmpString;
+		check_reading(in, "LP.lps");
 
 		x = 0;
 		y = 0;
@@ -434,6 +435,7 @@ rationalVector* ReadLpsFile(int numOfVars, bool verbose = true)
 		OptVector->set_entry(i, x, y);
 
 	}
+	skip_to_word(in, "end", "LP.lps");
 	if (verbose)
 	{
 		cerr << "done." << endl;
@@ -521,18 +523,20 @@ listCone* readCddExtFile(int &numOfVars)
 		exit(1);
 	}
 
-	while (tmpString != "begin")
-		getline(in, tmpString);
+	skip_to_line(in, "begin", cddInFileName);
 
 	in >> numOfVertices >> numOfVars >> tmpString;
+	check_reading(in, cddInFileName);
 
 	cones = createListCone();
 	endCones = cones;
 	if (numOfVertices == 0)
 	{
+		skip_to_word(in, "end", cddInFileName);
 		cerr << "readCddExtFile:: Empty Polytope." << endl;
 		ofstream OUT("numOfLatticePoints");
 		OUT << 0 << endl;
+		close_with_error_check(OUT, "numOfLatticePoints");
 		exit(0);
 	}
 
@@ -549,6 +553,7 @@ listCone* readCddExtFile(int &numOfVars)
 		while (((read == '\n' || read == '\r') || read == ' ') || read == '\t')
 		{
 			in.get(read);
+			check_reading(in, cddInFileName);
 			if (read == '0')
 			{
 				cerr << "\n\nreadCddExtFile:: Unbounded polytope!" << endl << endl;
@@ -562,7 +567,9 @@ listCone* readCddExtFile(int &numOfVars)
 				flag = 1;
 
 			in.get(read);
+			check_reading(in, cddInFileName);
 		}
+		skip_to_word(in, "end", cddInFileName);
 
 		if (flag)
 		{
@@ -579,6 +586,7 @@ listCone* readCddExtFile(int &numOfVars)
 
 		}
 
+		close_with_error_check(OUT, "numOfLatticePoints");
 		exit(0);
 	}
 
@@ -590,6 +598,7 @@ listCone* readCddExtFile(int &numOfVars)
 			x = 0;
 			y = 0;
 			ReadCDD(in, x, y);
+			check_reading(in, cddInFileName);
 
 			if (j > 0)
 			{
@@ -615,6 +624,7 @@ listCone* readCddExtFile(int &numOfVars)
 		endCones->rest = c;
 		endCones = endCones->rest;
 	}
+	skip_to_word(in, "end", cddInFileName);
 
 	in.close();
 
@@ -625,6 +635,19 @@ listCone* readCddExtFile(int &numOfVars)
 	return result;
 }
 /* ----------------------------------------------------------------- */
+static int readVertexNumber(istream &in, const char *fileName, int numOfVertices)
+{
+	int k;
+	in >> k;
+	check_reading(in, fileName);
+	if (k < 1 || k > numOfVertices)
+	{
+		cerr << "Vertex number out of range in file " << fileName << "!" << endl;
+		exit(1);
+	}
+	return k;
+}
+/* ----------------------------------------------------------------- */
 listCone* readCddEadFile(listCone* cones, int numOfVars)
 {
 	int i, j, k, numOfVertices, numOfRays;
@@ -647,11 +670,16 @@ listCone* readCddEadFile(listCone* cones, int numOfVars)
 		exit(1);
 	}
 
-	while (tmpString != "begin")
-		getline(in, tmpString);
+	skip_to_line(in, "begin", cddInFileName);
 
 	in >> numOfVertices;
 	getline(in, tmpString);
+	check_reading(in, cddInFileName);
+	if (numOfVertices != lengthListCone(cones))
+	{
+		cerr << "The files latte_cdd.ext and latte_cdd.ead do not belong together!" << endl;
+		exit(1);
+	}
 
 	vertices = createArrayRationalVector(numOfVertices);
 
@@ -675,6 +703,7 @@ listCone* readCddEadFile(listCone* cones, int numOfVars)
 
 		in >> numOfRays;
 		in >> tmpString;
+		check_reading(in, cddInFileName);
 
 		rays = createListVector(createVector(numOfVars));
 		endRays = rays;
@@ -683,7 +712,7 @@ listCone* readCddEadFile(listCone* cones, int numOfVars)
 		{
 			for (j = 0; j < numOfRays; j++)
 			{
-				in >> k;
+				k = readVertexNumber(in, cddInFileName, numOfVertices);
 				v = constructRay(vertices[i], vertices[k - 1], numOfVars - 1);
 				endRays->rest = createListVector(v);
 				endRays = endRays->rest;
@@ -695,7 +724,7 @@ listCone* readCddEadFile(listCone* cones, int numOfVars)
 			int r = 1;
 			for (j = 0; j < numOfVertices - numOfRays; ++j)
 			{
-				in >> k;
+				k = readVertexNumber(in, cddInFileName, numOfVertices);
 				while (r < k)
 				{
 					v = constructRay(vertices[i], vertices[r - 1], numOfVars
@@ -718,6 +747,7 @@ listCone* readCddEadFile(listCone* cones, int numOfVars)
 		delete rays; // only deletes the dummy head
 		tmp = tmp->rest;
 	}
+	skip_to_word(in, "end", cddInFileName);
 	delete[] vertices;
 
 	in.close();
@@ -796,6 +826,12 @@ listCone* readCddEadFileFromVrep(listCone* cones, int numOfVars)
 	}
 
 	in >> numOfVertices >> tmp_int;
+	check_reading(in, cddInFileName);
+	if (numOfVertices != lengthListCone(cones))
+	{
+		cerr << "The files latte_cdd.ext and latte_cdd.ead do not belong together!" << endl;
+		exit(1);
+	}
 
 	vertices = createArrayRationalVector(numOfVertices);
 
@@ -819,6 +855,7 @@ listCone* readCddEadFileFromVrep(listCone* cones, int numOfVars)
 
 		in >> numOfRays;
 		in >> tmpString;
+		check_reading(in, cddInFileName);
 
 		rays = createListVector(createVector(numOfVars));
 		endRays = rays;
@@ -827,7 +864,7 @@ listCone* readCddEadFileFromVrep(listCone* cones, int numOfVars)
 		{
 			for (j = 0; j < numOfRays; j++)
 			{
-				in >> k;
+				k = readVertexNumber(in, cddInFileName, numOfVertices);
 				v = constructRay(vertices[i], vertices[k - 1], numOfVars - 1);
 				endRays->rest = createListVector(v);
 				endRays = endRays->rest;
@@ -839,7 +876,7 @@ listCone* readCddEadFileFromVrep(listCone* cones, int numOfVars)
 			int r = 1;
 			for (j = 0; j < numOfRays; ++j)
 			{
-				in >> k;
+				k = readVertexNumber(in, cddInFileName, numOfVertices);
 				while (r < k)
 				{
 					v = constructRay(vertices[i], vertices[r - 1], numOfVars
@@ -862,6 +899,7 @@ listCone* readCddEadFileFromVrep(listCone* cones, int numOfVars)
 		tmp->rays = rays->rest;
 		tmp = tmp->rest;
 	}
+	skip_to_word(in, "end", cddInFileName);
 
 	in.close();
 	cerr << "done.\n";
@@ -870,6 +908,14 @@ listCone* readCddEadFileFromVrep(listCone* cones, int numOfVars)
 }
 
 /* ----------------------------------------------------------------- */
+/* CDD+ has a zero exit status even if an error occurs, so make sure
+   that files left over from an earlier run are not taken for its output. */
+static void removeCddOutputFiles()
+{
+	remove_if_exists("latte_cdd.ext");
+	remove_if_exists("latte_cdd.ead");
+}
+
 listCone* computeVertexCones(const char* fileName, listVector* matrix,
 		int numOfVars)
 {
@@ -879,6 +925,7 @@ listCone* computeVertexCones(const char* fileName, listVector* matrix,
 	/* Compute vertices and edges with cdd. */
 
 	createCddIneFile(matrix, numOfVars + 1);
+	removeCddOutputFiles();
 
 	cerr << "Computing vertices and edges with cdd...";
 	cerr.flush();
@@ -922,6 +969,7 @@ listCone* computeVertexCones(const char* fileName, const dd_MatrixPtr M)
 	/* Compute vertices and edges with cdd. */
 
 	createCddIneFile(M);
+	removeCddOutputFiles();
 
 	cerr << "Computing vertices and edges with cdd...";
 	cerr.flush();
@@ -960,6 +1008,7 @@ listCone* computeVertexConesViaLrs(const char* fileName, listVector* matrix,
 	createLrsExtFileToPostAnalysys(matrix, numOfVars + 1);
 
 	cerr << "Computing edges with cdd...";
+	remove_if_exists("latte_cdd.ead");
 	system_with_error_check(shell_quote(relocated_pathname(CDD_PATH))
 			+ " latte_cdd.ine > latte_cdd.out");
 	cerr << "done.\n\n";
@@ -1042,6 +1091,11 @@ static int compute_adjacency(int argc, char *argv[])
 
 	//dd_set_global_constants();  /* First, this must be called. */
 	out = fopen("latte_cdd.ead", "w");
+	if (out == NULL)
+	{
+		fprintf(stderr, "Cannot open latte_cdd.ead\n");
+		return 1;
+	}
 	dd_init(val);
 	if (argc > 1)
 		strcpy(inputfile, argv[1]);
@@ -1121,7 +1175,14 @@ static int compute_adjacency(int argc, char *argv[])
 	dd_FreeMatrix(M);
 	dd_FreeMatrix(M2);
 	dd_FreeMatrix(M3);
-	fclose(out);
+	{
+		int write_error = ferror(out);
+		if (fclose(out) != 0 || write_error)
+		{
+			fprintf(stderr, "Writing latte_cdd.ead failed\n");
+			return 1;
+		}
+	}
 	_L99: ;
 	if (err != dd_NoError)
 	{
@@ -1222,6 +1283,7 @@ rationalVector* LP(listVector* matrix, vec_ZZ& cost, int numOfVars,
 		cerr << "Computing LP... ";
 		cerr.flush();
 	}
+	remove_if_exists("LP.lps");
 	system_with_error_check(shell_quote(relocated_pathname(CDD_PATH)) + " LP.ine > LP.out");
 	if (verbose)
 	{
-- 
2.43.0


From 73802c16c95936252c8576d82d693d437b5561ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:35 +0000
Subject: [PATCH 12/46] fix: report an unreadable knapsack list and an
 unwritable output file

---
 code/latte/top-knapsack/Driver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/latte/top-knapsack/Driver.cpp b/code/latte/top-knapsack/Driver.cpp
index abd5d51..e0efb5a 100644
--- a/code/latte/top-knapsack/Driver.cpp
+++ b/code/latte/top-knapsack/Driver.cpp
@@ -17,6 +17,7 @@
 #include "integration/multiply.h"
 #include "PeriodicFunction.h"
 #include "print.h"
+#include "latte_system.h"
 #include "dual.h"
 #include "timing.h"
 #include "config.h"
@@ -125,11 +126,13 @@ int main(int argc, char *argv[]) {
 	file.open(inFile.c_str());
 	int n;
 	file >> n;
+	check_reading(file, inFile);
 	vec_ZZ alpha;
 	alpha.SetLength(n);
 
 	for (int i = 0; i < n; ++i)
 		file >> alpha[i];
+	check_reading(file, inFile);
 
 	Timer time("Total");
 	time.start();
@@ -149,7 +152,7 @@ int main(int argc, char *argv[]) {
 		ofstream f(outFile.c_str());
 		tk.printAnswer(f);
 		f << "#Total Time: " << time.get_seconds() << endl;
-		f.close();
+		close_with_error_check(f, outFile);
 	}
 	else
 	{
-- 
2.43.0


From 5ac020f441b129619d4c1bf98fd9cde39b41cb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:35 +0000
Subject: [PATCH 13/46] fix: check the files exchanged with TOPCOM

---
 code/latte/triangulation/TriangulationWithTOPCOM.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/code/latte/triangulation/TriangulationWithTOPCOM.cpp b/code/latte/triangulation/TriangulationWithTOPCOM.cpp
index 6511007..fb609d6 100644
--- a/code/latte/triangulation/TriangulationWithTOPCOM.cpp
+++ b/code/latte/triangulation/TriangulationWithTOPCOM.cpp
@@ -134,6 +134,11 @@ read_TOPCOM_triangulation(istream &in,
     while (in.good() && in.peek()!='}') {
       int index;
       in >> index;
+      check_reading(in, "of TOPCOM output");
+      if (index < 0 || index >= (int) rays.size()) {
+	cerr << "Failed to read triangulation from TOPCOM output" << endl;
+	exit(1);
+      }
       simp->rays = new listVector(rays[index]->first, simp->rays);
       // Skip the ',' of simplex.
       if (in.peek()==',') in.get(c);
@@ -181,6 +186,7 @@ triangulate_cone_with_TOPCOM(listCone *cone, int numOfVars, ConeConsumer &consum
   {
     ofstream topcom_input(topcom_input_file_name.c_str());
     write_TOPCOM_point_configuration(topcom_input, cone, numOfVars);
+    close_with_error_check(topcom_input, topcom_input_file_name);
   }
   system_with_error_check(TOPCOM_POINTS2PLACINGTRIANG " < " + topcom_input_file_name
 			  + " > " + topcom_output_file_name);
@@ -197,6 +203,7 @@ all_triangulations_of_cone_with_TOPCOM(listCone *cone, int numOfVars)
   {
     ofstream topcom_input(topcom_input_file_name.c_str());
     write_TOPCOM_point_configuration(topcom_input, cone, numOfVars);
+    close_with_error_check(topcom_input, topcom_input_file_name);
   }
   system_with_error_check(TOPCOM_POINTS2TRIANGS " < " + topcom_input_file_name
 			  + " > " + topcom_output_file_name);
-- 
2.43.0


From 848d637f9ab688dd3ae7c10136ad5516310efdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:35 +0000
Subject: [PATCH 14/46] fix: detect read errors and incomplete files in the
 classic input reader

---
 code/latte/CheckEmpty.cpp  |  5 +++++
 code/latte/ReadingFile.cpp | 40 +++++++++++++++++++++++++++++---------
 code/latte/maximize.cpp    |  2 ++
 code/latte/minimize.cpp    |  2 ++
 4 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/code/latte/CheckEmpty.cpp b/code/latte/CheckEmpty.cpp
index 1a3c464..becb517 100644
--- a/code/latte/CheckEmpty.cpp
+++ b/code/latte/CheckEmpty.cpp
@@ -77,9 +77,14 @@ void CheckEmpty(const char * Filename){
       for(int i = 0; i < numOfNonneg; i++) IN >> Index2[i];
     }
   }
+  if(!IN.eof()){
+    cerr << "Reading input file " << Filename << " failed." << endl;
+    exit(1);
+  }
   ifstream in(Filename);
   // cerr << "here" << endl;
   in >> numOfConsts >> numOfDims;
+  check_reading(in, Filename);
   //  cerr << numOfConsts << " " << numOfDims << endl; 
   int equs[numOfConsts];
   //ZZ cost[numOfDims - 1];
diff --git a/code/latte/ReadingFile.cpp b/code/latte/ReadingFile.cpp
index 211f6ea..da78a42 100644
--- a/code/latte/ReadingFile.cpp
+++ b/code/latte/ReadingFile.cpp
@@ -73,9 +73,14 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
       for(int i = 0; i < numOfNonneg; i++) IN >> Index2[i];
     }
   }
+  if(!IN.eof()){
+    cerr << "Reading input file " << Filename << " failed." << endl;
+    exit(1);
+  }
   ifstream in(Filename.c_str());
   // cerr << "here" << endl;
   in >> numOfConsts >> numOfDims;
+  check_reading(in, Filename);
   //  cerr << numOfConsts << " " << numOfDims << endl; 
   int equs[numOfConsts];
   //ZZ cost[numOfDims - 1];
@@ -88,6 +93,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
  for(int i = 0; i < numOfConsts; i++)
     for(int j = 0; j < numOfDims; j++)
       { in >> entries[i][j]; }
+  check_reading(in, Filename);
  //  cerr << "here3" << endl;
  // printListVector(CheckRedIneq(entries), numOfDims);
  if((equ[0] == 'y') && (flag == 0)){ in >> numOfEqu;
@@ -145,6 +151,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
     for(int i = 0; i < numOfEqu; i++) out << equs[i] << " ";
     out << endl;
   }
+  close_with_error_check(out, "Check_red");
  
   int * NewIndex = NULL;
   system_with_error_check(shell_quote(relocated_pathname(REDCHECK_PATH)) + " Check_red > Check_red.out 2>&1");
@@ -156,7 +163,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
   }
   while(tmpString != "H-representation") {
     in2 >> tmpString;
-    if (in2.eof()) {
+    if (!in2) {
       cerr << relocated_pathname(REDCHECK_PATH) << " failed to create a non-redundant H-representation; "
 	   << "see `Check_red.out' for details." << endl;
       exit(1);
@@ -175,6 +182,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
       }
       
   }
+  check_reading(in2, "Check_red.out");
     in2.close();
   if(flag == 2) strcpy(nonneg, "no");
   tmpString = "a";
@@ -184,15 +192,17 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
     cerr << "Missing Check_red.out file..." << endl;
     exit(1);
   }
-  while (tmpString!="begin") getline(in3,tmpString);
+  skip_to_line(in3, "begin", "Check_red.out");
 
   in3 >> numOfConsts2 >> numOfDims >> tmpString;
+  check_reading(in3, "Check_red.out");
 
   mat_ZZ newEnt;
   newEnt.SetDims(numOfConsts2, numOfDims);
     for(int i = 0; i < numOfConsts2; i++)
       for(int j = 0; j < numOfDims; j++){
 	in3 >> newEnt[i][j]; }
+    skip_to_word(in3, "end", "Check_red.out");
 
     // Don't mess around in the directory of the input files.
     // Put temporary files in the current directory.
@@ -219,6 +229,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
     /*    if(max[0] == 'y') 
       for(int i = 0; i < numOfDims - 1; i++) out2 << cost[i] << " ";
       out2 << endl; */
+    close_with_error_check(out2, Filename);
     system_with_error_check("rm -f Check_red*");
     cerr << "done." << endl;
     if (NewIndex) delete[] NewIndex;
@@ -242,7 +253,7 @@ void CheckInputFileCDDRep1(const char *InputFile){
   in3 >> tmp;
   string tmpString;
   //  if(tmp[0] == '*')
-    while(tmpString != "begin") {getline(in2, tmpString); 
+    while(tmpString != "begin") {getline(in2, tmpString); check_reading(in2, InputFile);
     if(tmpString[0] == 'l') flag3 = 1;
     //  cerr << tmpString << endl;
     counter++;}
@@ -277,9 +288,10 @@ void CheckInputFileCDDRep1(const char *InputFile){
       in4 >> tmpString2;//cerr << tmpString2 << endl;
       in4 >> tmpString2;//cerr << tmpString2 << endl;
       if(tmpString2  != "integer") flag = 1;
-      while(tmpString2 != "linearity"){ in4 >>tmpString2; } 
+      while(tmpString2 != "linearity"){ in4 >>tmpString2; check_reading(in4, InputFile); } 
       in4 >> tmp_int; //cerr << tmpString2 << " " << tmp_int << endl;
       for(int i = 0; i < tmp_int; i++) in4 >> num;
+      check_reading(in4, InputFile);
 
     }
   }
@@ -293,7 +305,7 @@ void CheckInputFileCDDRep1(const char *InputFile){
     
   }
 
-  while(!in.eof()) in >> tmpString;
+  while(in) in >> tmpString;
   
   //  if(tmpString  != "end") flag = 1;  
   // cerr << flag3 << endl;
@@ -366,12 +378,12 @@ void CheckInputFileCDDRep3(const char *InputFile){
   int counter = 0, dim, numOfConst, flag = 0;
   string tmpString;
  
-  while (tmpString!="begin") getline(in,tmpString);
+  skip_to_line(in, "begin", InputFile);
 
   in >> numOfConst >> dim >> tmpString;
 
   while (tmpString!="end") 
-    {in >> tmpString;// cerr << tmpString << endl;
+    {in >> tmpString; check_reading(in, InputFile);// cerr << tmpString << endl;
     counter ++;
     }
 
@@ -402,7 +414,7 @@ void CheckInputFileCDDRep4(const char *InputFile){
   string tmp;
   ZZ zztmp;
   char* tmpString = new char[200];
-  while(tmp != "begin") getline(in, tmp);
+  skip_to_line(in, "begin", InputFile);
   in >> zztmp;
   conv(constrains, zztmp);
   in >> zztmp;
@@ -645,6 +657,7 @@ void readLatteProblem(const char *fileName, listVector **equations,
     ifstream in2(fileName);
     int dim, row;
     in2 >> dim >> row;
+    check_reading(in2, fileName);
     int Matrix[dim][row];
     for(i = 0; i < dim; i++)
       for(j = 0; j < row; j++) in2 >> Matrix[i][j];
@@ -804,6 +817,7 @@ void readLatteProblem(const char *fileName, listVector **equations,
   }
 
   }
+  check_reading(in, fileName);
   if (equationsPresent[0]=='n') {
     (*inequalities)=basis;
     (*equations)=0;
@@ -816,6 +830,7 @@ void readLatteProblem(const char *fileName, listVector **equations,
     indexEquations=createVector(numOfEquations);
 
     for (i=0; i<numOfEquations; i++) in >> indexEquations[i];
+    check_reading(in, fileName);
 #if 0
     cerr << "\nEquation indices: ";
     printVectorToFile(cerr,indexEquations,numOfEquations);
@@ -943,6 +958,10 @@ int CDDstylereadLatteProblem(const char *fileName, listVector **equations,
     for(i = 0; i < length; i++) in2 >> indexEquations[i];
     }
   }
+  if(!in2.eof()){
+    cerr << "Reading input file " << fileName << " failed." << endl;
+    exit(1);
+  }
 
   if(grobner[0] == 'y') return 0;
   else{
@@ -958,17 +977,19 @@ int CDDstylereadLatteProblem(const char *fileName, listVector **equations,
   }
     while (tmpString!="begin"){
       getline(in,tmpString);
+      check_reading(in, fileName);
       if(tmpString[0] == 'l') f = 1;}
 
     if(f== 1){
       ifstream in2(fileName);
       strcpy(equationsPresent,"yes");
-      while (tmpString!="linearity") in2 >> tmpString;
+      while (tmpString!="linearity"){ in2 >> tmpString; check_reading(in2, fileName); }
       //  int length;
       in2 >> length;
       //     cerr << length << endl;
       indexEquations.SetLength(length);
       for(i = 0; i < length; i++) in2 >> indexEquations[i];
+      check_reading(in2, fileName);
     }
   in >> numOfVectors;
   in >> (*numOfVars) >> tmpString;
@@ -1095,6 +1116,7 @@ int CDDstylereadLatteProblem(const char *fileName, listVector **equations,
   }
 
   }
+  check_reading(in, fileName);
   if (equationsPresent[0]=='n') {
     (*inequalities)=basis;
     (*equations)=0;
diff --git a/code/latte/maximize.cpp b/code/latte/maximize.cpp
index 4969c60..bf1682e 100644
--- a/code/latte/maximize.cpp
+++ b/code/latte/maximize.cpp
@@ -210,9 +210,11 @@ int main(int argc, char *argv[]) {
     }
     int costDim, dummy;
     INCost >> dummy >> costDim; 
+    check_reading(INCost, costFile);
     cost.SetLength(costDim);
     for(i = 0; i < costDim; i++)
       INCost >> cost[i]; 
+    check_reading(INCost, costFile);
   }
   //strcpy (fileName,"stdin");
   
diff --git a/code/latte/minimize.cpp b/code/latte/minimize.cpp
index 1935304..858f9a6 100644
--- a/code/latte/minimize.cpp
+++ b/code/latte/minimize.cpp
@@ -210,9 +210,11 @@ int main(int argc, char *argv[]) {
     }
     int costDim, dummy;
     INCost >> dummy >> costDim; 
+    check_reading(INCost, costFile);
     cost.SetLength(costDim);
     for(i = 0; i < costDim; i++)
       INCost >> cost[i]; 
+    check_reading(INCost, costFile);
   }
   //strcpy (fileName,"stdin");
   
-- 
2.43.0


From 149c7e4f5335b7aea086cc61851b0627935a85d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:35 +0000
Subject: [PATCH 15/46] fix: detect read errors of CDD input files and
 integrands

---
 code/latte/ReadPolyhedron.cpp      | 8 ++++++--
 code/latte/valuation/valuation.cpp | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index 41f0762..8bd480d 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -340,7 +340,9 @@ read_cone_cdd_format(const string &filename) {
 	dd_MatrixPtr M;
 	dd_ErrorType err = dd_NoError;
 	M = dd_PolyFile2Matrix(in, &err);
-	if (err != dd_NoError) {
+	bool read_error = ferror(in);
+	fclose(in);
+	if (err != dd_NoError || read_error) {
 		cerr << "Parse error in CDD-style input file " << filename << endl;
 		THROW_LATTE(LattException::fe_Parse, 0);
 	}
@@ -581,7 +583,9 @@ static dd_MatrixPtr ReadCddStyleMatrix(const string &filename) {
 	dd_MatrixPtr M;
 	dd_ErrorType err = dd_NoError;
 	M = dd_PolyFile2Matrix(in, &err);
-	if (err != dd_NoError) {
+	bool read_error = ferror(in);
+	fclose(in);
+	if (err != dd_NoError || read_error) {
 		cerr << "Parse error in CDD-style input file " << filename << endl;
 		THROW_LATTE(LattException::fe_Parse, 0);
 	}
diff --git a/code/latte/valuation/valuation.cpp b/code/latte/valuation/valuation.cpp
index 98a86ff..dc1a9bb 100644
--- a/code/latte/valuation/valuation.cpp
+++ b/code/latte/valuation/valuation.cpp
@@ -6,6 +6,7 @@
  */
 
 #include "valuation.h"
+#include "latte_system.h"
 #include <iomanip>
 
 //defines the input file/string.
@@ -822,6 +823,7 @@ Valuation::ValuationContainer Valuation::mainValuationDriver(
 			{
 				cerr << "Reading " << (integrationInput.integrandType == IntegrationInput::inputPolynomial ? "polynomial" : "linear forms" ) << " from file " << integrationInput.fileName.c_str() << endl;
 				getline(inStream, integrationInput.integrand, '\n');
+				check_reading(inStream, integrationInput.fileName);
 				inFile.close();
 			} else if (integrationInput.unweightedCounting == true && interactiveLatte == false)
 			{
-- 
2.43.0


From cc60b7c5b19a5be98f921ce2148b55cd79af4fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:35 +0000
Subject: [PATCH 16/46] fix: report failed writes of the count, the rational
 functions and the generating function

---
 code/latte/ResSingle.cpp         | 12 ++++++------
 code/latte/Residue.cpp           |  2 ++
 code/latte/RudyResNTL.cpp        | 14 +++++++-------
 code/latte/barvinok/barvinok.cpp |  2 ++
 code/latte/count.cpp             |  4 +++-
 code/latte/genFunction/maple.cpp | 13 ++++++++++++-
 code/latte/genFunction/maple.h   |  4 ++++
 code/latte/preprocess.cpp        | 11 +++++++++++
 8 files changed, 47 insertions(+), 15 deletions(-)

diff --git a/code/latte/ResSingle.cpp b/code/latte/ResSingle.cpp
index 791ab3a..5d12b9d 100644
--- a/code/latte/ResSingle.cpp
+++ b/code/latte/ResSingle.cpp
@@ -340,7 +340,7 @@ int ResidueFunction_Single_Cone(listCone *cones,
 
 		Simplify_Sum << "s := 0:";
 		
-		Simplify_Sum.close ();
+		close_with_error_check (Simplify_Sum, "simplify.sum");
 	}
 
 	ofstream Rational_Function_S_T;
@@ -351,7 +351,7 @@ int ResidueFunction_Single_Cone(listCone *cones,
 		
 		Simplify_Sum << "HS := 0:";
 
-		Simplify_Sum.close ();	
+		close_with_error_check (Simplify_Sum, "simplify.sum");	
 		
 
 	}
@@ -362,7 +362,7 @@ int ResidueFunction_Single_Cone(listCone *cones,
 
 		Simplify_Sum << "HS := 0:";
 
-		Simplify_Sum.close ();
+		close_with_error_check (Simplify_Sum, "simplify.sum");
 	}
 	
 	// For each Cone
@@ -747,7 +747,7 @@ int ResidueFunction_Single_Cone(listCone *cones,
 		{
 			Simplify_Term << "):";
 
-			Simplify_Term.close ();
+			close_with_error_check (Simplify_Term, "simplify.term");
 
 			system_with_error_check(shell_quote(MAPLE_PATH) + " < " + shell_quote(relocated_pathname(MAPLE_SCRIPT_DIR)) + "/simplify3.add >out.simplify");
 		
@@ -833,7 +833,7 @@ int ResidueFunction_Single_Cone(listCone *cones,
 			Final_Cone_Expression->Print_Rational_Functions_to_File ( Simplify_Term );
 			Simplify_Term << ":" << endl;
 			
-			Simplify_Term.close ();
+			close_with_error_check (Simplify_Term, "simplify.term");
 
 			system_with_error_check(shell_quote(MAPLE_PATH) + " < " + shell_quote(relocated_pathname(MAPLE_SCRIPT_DIR)) + "/simplify.add >out.simplify");
 			
@@ -877,7 +877,7 @@ int ResidueFunction_Single_Cone(listCone *cones,
 	if (Residue_Parameters->Flags & PRINT)
 	{
 			 
-		Rational_Function_Output_File.close ();	 
+		close_with_error_check (Rational_Function_Output_File, "func.rat");	 
 	}
 	
 	for (int k = 0; k <= DEGREE;k++)
diff --git a/code/latte/Residue.cpp b/code/latte/Residue.cpp
index 07b3343..e181fe0 100644
--- a/code/latte/Residue.cpp
+++ b/code/latte/Residue.cpp
@@ -31,6 +31,7 @@
 #include "config.h"
 #include "cone.h"
 #include "ramon.h"
+#include "latte_system.h"
 #include "latte_ntl_integer.h"
 
 using namespace std;
@@ -563,6 +564,7 @@ Residue(listCone* cones, int numOfVars)
   noLatticePts=noLatticePts/tenPow;
   ofstream out("numOfLatticePoints");
   out << noLatticePts << endl;
+  close_with_error_check(out, "numOfLatticePoints");
 
   //OUTPUT TIMES AND RESULT
 //    cerr<<"denominator subclock: "<<sc<<endl<<"numerator subclock: "<<sc2<<endl
diff --git a/code/latte/RudyResNTL.cpp b/code/latte/RudyResNTL.cpp
index 03e35fa..51b2877 100644
--- a/code/latte/RudyResNTL.cpp
+++ b/code/latte/RudyResNTL.cpp
@@ -558,7 +558,7 @@ vec_ZZ ResidueFunction(listCone* cones, int numOfVars, int print_flag,
 
 		Simplify_Sum << "s := 0:";
 		
-		Simplify_Sum.close ();
+		close_with_error_check (Simplify_Sum, "simplify.sum");
 	}
 
 	ofstream Rational_Function_S_T;
@@ -569,7 +569,7 @@ vec_ZZ ResidueFunction(listCone* cones, int numOfVars, int print_flag,
 		
 		Simplify_Sum << "HS := 0:";
 
-		Simplify_Sum.close ();	
+		close_with_error_check (Simplify_Sum, "simplify.sum");	
 		
 
 	}
@@ -580,7 +580,7 @@ vec_ZZ ResidueFunction(listCone* cones, int numOfVars, int print_flag,
 
 		Simplify_Sum << "HS := 0:";
 
-		Simplify_Sum.close ();
+		close_with_error_check (Simplify_Sum, "simplify.sum");
 	}
 
 	if ( OUTPUT_CONE_MULTI == 1)
@@ -589,7 +589,7 @@ vec_ZZ ResidueFunction(listCone* cones, int numOfVars, int print_flag,
 
 		Simplify_Sum << "HS := 0:";
 
-		Simplify_Sum.close ();
+		close_with_error_check (Simplify_Sum, "simplify.sum");
 	}	
 
 	// For each Cone
@@ -1061,7 +1061,7 @@ vec_ZZ ResidueFunction(listCone* cones, int numOfVars, int print_flag,
 		{
 			Simplify_Term << "):";
 
-			Simplify_Term.close ();
+			close_with_error_check (Simplify_Term, "simplify.term");
 
 			system_with_error_check(shell_quote(MAPLE_PATH) + " < " + shell_quote(relocated_pathname(MAPLE_SCRIPT_DIR)) + "/simplify3.add >out.simplify");
 		
@@ -1162,7 +1162,7 @@ vec_ZZ ResidueFunction(listCone* cones, int numOfVars, int print_flag,
 			Final_Cone_Expression->Print_Rational_Functions_to_File ( Simplify_Term );
 			Simplify_Term << ":" << endl;
 			
-			Simplify_Term.close ();
+			close_with_error_check (Simplify_Term, "simplify.term");
 
 			system_with_error_check(shell_quote(MAPLE_PATH) + " < " + shell_quote(relocated_pathname(MAPLE_SCRIPT_DIR)) + "/simplify.add >out.simplify");
 			
@@ -1218,7 +1218,7 @@ vec_ZZ ResidueFunction(listCone* cones, int numOfVars, int print_flag,
 	if(print_flag == 1)
 	{
 		Rational_Function_Output_File << ":" << endl;
-		Rational_Function_Output_File.close ();	 
+		close_with_error_check (Rational_Function_Output_File, "func.rat");	 
 	}
 	
 	if(DEGREE > 1){
diff --git a/code/latte/barvinok/barvinok.cpp b/code/latte/barvinok/barvinok.cpp
index b88e3fc..6898cbf 100644
--- a/code/latte/barvinok/barvinok.cpp
+++ b/code/latte/barvinok/barvinok.cpp
@@ -32,6 +32,7 @@
 #include "ComputeOmega.h"
 #include "barvinok.h"
 #include "../ramon.h"
+#include "latte_system.h"
 #include "../RudyResNTL.h"
 #include "rational.h"
 #include "convert.h"
@@ -116,6 +117,7 @@ void BarvinokParameters::deliver_number_of_lattice_points(const ZZ &number)
   cout << endl;
   ofstream out("numOfLatticePoints");
   out << number << endl;
+  close_with_error_check(out, "numOfLatticePoints");
 }
 
 void Single_Cone_Parameters::print_statistics(ostream &s)
diff --git a/code/latte/count.cpp b/code/latte/count.cpp
index cc02803..fd6bf4e 100644
--- a/code/latte/count.cpp
+++ b/code/latte/count.cpp
@@ -479,8 +479,9 @@ CountAnswerContainer mainCountDriver(int argc, char *argv[])
 					new DelegatingSingleConeParameters(*params);
 			delete params;
 			params = write_params;
-			ConeConsumer *writing_consumer =
+			GeneratingFunctionWritingConeConsumer *file_consumer =
 					new GeneratingFunctionWritingConeConsumer(rat_filename);
+			ConeConsumer *writing_consumer = file_consumer;
 
 			if (Poly->projecting_up_transducer)
 				writing_consumer = compose(Poly->projecting_up_transducer,
@@ -494,6 +495,7 @@ CountAnswerContainer mainCountDriver(int argc, char *argv[])
 			listCone *cone;
 			for (cone = Poly->cones; cone != NULL; cone = cone->rest)
 				barvinokDecomposition_Single(cone, write_params);
+			file_consumer->Finish();
 			cerr << "Multivariate generating function written to `"<< rat_filename.c_str() << "'" << endl;
 			countAnswerContainer.multivariateGenFunctionFileName = rat_filename;
 			break;
diff --git a/code/latte/genFunction/maple.cpp b/code/latte/genFunction/maple.cpp
index 11a23f5..93cee11 100644
--- a/code/latte/genFunction/maple.cpp
+++ b/code/latte/genFunction/maple.cpp
@@ -21,6 +21,7 @@
 */
 
 #include <climits>
+#include "latte_system.h"
 #include "maple.h"
 
 /* ----------------------------------------------------------------- */
@@ -136,11 +137,17 @@ void createGeneratingFunctionAsMapleInputGrob(listCone* cones,
 /* ----------------------------------------------------------------- */
 
 GeneratingFunctionWritingConeConsumer::GeneratingFunctionWritingConeConsumer(const std::string &genfun_filename)
-  : genfun_stream(genfun_filename.c_str()),
+  : genfun_name(genfun_filename),
+    genfun_stream(genfun_filename.c_str()),
     first_term(true)
 {
 }
 
+void GeneratingFunctionWritingConeConsumer::Finish()
+{
+  close_with_error_check(genfun_stream, genfun_name);
+}
+
 
 int GeneratingFunctionWritingConeConsumer::ConsumeCone(listCone *cone)
 {
@@ -153,5 +160,9 @@ int GeneratingFunctionWritingConeConsumer::ConsumeCone(listCone *cone)
     first_term = false;
   }
   freeCone(cone);
+  if (!genfun_stream) {
+    cerr << "Writing file `" << genfun_name << "' failed." << endl;
+    exit(1);
+  }
   return 1; // means "success, please continue"
 }
diff --git a/code/latte/genFunction/maple.h b/code/latte/genFunction/maple.h
index 45cf3fc..1057a0a 100644
--- a/code/latte/genFunction/maple.h
+++ b/code/latte/genFunction/maple.h
@@ -42,7 +42,11 @@ class GeneratingFunctionWritingConeConsumer : public ConeConsumer {
 public:
   GeneratingFunctionWritingConeConsumer(const std::string &genfun_filename);
   virtual int ConsumeCone(listCone *cone);
+  // Call this after the last cone; exits the program if the file
+  // could not be written completely.
+  void Finish();
 private:
+  std::string genfun_name;
   ofstream genfun_stream;
   bool first_term;
 };
diff --git a/code/latte/preprocess.cpp b/code/latte/preprocess.cpp
index 48dab5b..5a6ed18 100644
--- a/code/latte/preprocess.cpp
+++ b/code/latte/preprocess.cpp
@@ -21,6 +21,7 @@
 #include "cone.h"
 #include "print.h"
 #include "ramon.h"
+#include "latte_system.h"
 
 /* ----------------------------------------------------------------- */
 vec_ZZ transpose(vec_ZZ mat, int numOfVars, int numOfRows) {
@@ -187,6 +188,7 @@ void checkListVector(listVector* basis, int numOfVars) {
 		cerr << "\n\n**** Total number of lattice points is: 0 ****\n" << endl;
 		ofstream out("numOfLatticePoints");
 		out << 0 << endl;
+		close_with_error_check(out, "numOfLatticePoints");
 		exit(0);
 	}
 
@@ -202,6 +204,7 @@ void checkListVector(listVector* basis, int numOfVars) {
 					<< endl;
 			ofstream out("numOfLatticePoints");
 			out << 0 << endl;
+			close_with_error_check(out, "numOfLatticePoints");
 			exit(0);
 		} else if ((IsZero(counter) == 1) && (RHS > 0))
 			removeListVector(basis);
@@ -268,11 +271,13 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 				ofstream OUT("numOfLatticePoints");
 				cerr << "The number of lattice points is 1." << endl;
 				OUT << 1 << endl;
+				close_with_error_check(OUT, "numOfLatticePoints");
 				exit(0);
 			} else {
 				cerr << "The number of lattice points is 0." << endl;
 				ofstream OUT("numOfLatticePoints");
 				OUT << 0 << endl;
+				close_with_error_check(OUT, "numOfLatticePoints");
 				exit(0);
 			}
 		} else {
@@ -437,6 +442,7 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 						<< endl << endl;
 				ofstream OutZero("numOfLatticePoints");
 				OutZero << 0 << endl;
+				close_with_error_check(OutZero, "numOfLatticePoints");
 				exit(0);
 			}
 			zeros = 0;
@@ -597,6 +603,7 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 			cerr << "this polytope is empty!" << endl;
 			ofstream OutPut("numOfLatticePoints");
 			OutPut << 0 << endl;
+			close_with_error_check(OutPut, "numOfLatticePoints");
 			exit(0);
 		}
 		tmp = tmp->rest;
@@ -618,6 +625,7 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 		cerr << "\n\n****  Total number of lattice points is: 0 ****\n" << endl;
 		ofstream out("numOfLatticePoints");
 		out << 0 << endl;
+		close_with_error_check(out, "numOfLatticePoints");
 		exit(0);
 	}
 	(*numOfVars) = newNumOfVars - 1;
@@ -667,11 +675,13 @@ listVector* preprocessProblem_hack(listVector *equations, listVector *inequaliti
 				ofstream OUT("numOfLatticePoints");
 				cerr << "The number of lattice points is 1." << endl;
 				OUT << 1 << endl;
+				close_with_error_check(OUT, "numOfLatticePoints");
 				exit(0);
 			} else {
 				cerr << "The number of lattice points is 0." << endl;
 				ofstream OUT("numOfLatticePoints");
 				OUT << 0 << endl;
+				close_with_error_check(OUT, "numOfLatticePoints");
 				exit(0);
 			}
 		} else {
@@ -836,6 +846,7 @@ listVector* preprocessProblem_hack(listVector *equations, listVector *inequaliti
 						<< endl << endl;
 				ofstream OutZero("numOfLatticePoints");
 				OutZero << 0 << endl;
+				close_with_error_check(OutZero, "numOfLatticePoints");
 				exit(0);
 			}
 			zeros = 0;
-- 
2.43.0


From 41d102f6bfbdd9a66f0e6ef65ce525041c94d738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 17/46] fix: remove the generating function of an earlier run
 before counting

---
 code/latte/count.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/code/latte/count.cpp b/code/latte/count.cpp
index fd6bf4e..09c6c14 100644
--- a/code/latte/count.cpp
+++ b/code/latte/count.cpp
@@ -353,6 +353,11 @@ CountAnswerContainer mainCountDriver(int argc, char *argv[])
 		return countAnswerContainer;
 	}
 
+	/* Some polyhedra end the program before it writes a generating function;
+	 do not leave the one of an earlier run in its place. */
+	if (params->substitution == BarvinokParameters::NoSubstitution)
+		remove_if_exists(read_polyhedron_data.filename + ".rat");
+
 	Polyhedron *Poly = read_polyhedron_data.read_polyhedron(params);
 
 	/* Compute the facet information from tight inequalities if
-- 
2.43.0


From 17fc56c45bee0454536fd30b806e646710c259cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:28 +0000
Subject: [PATCH 18/46] fix: remove the temporary directory when the program
 ends

Nothing called remove_temporary_directory(), so every run left a directory
in /tmp, and after some tens of thousands of runs create_temporary_directory()
ran out of names it tries.
---
 code/latte/latte_system.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/code/latte/latte_system.cpp b/code/latte/latte_system.cpp
index 2355906..09b5d1d 100644
--- a/code/latte/latte_system.cpp
+++ b/code/latte/latte_system.cpp
@@ -151,6 +151,7 @@ void create_temporary_directory()
       created_temp_dir = true;
       temp_dir = t;
       temp_dir += "/";
+      atexit(remove_temporary_directory);
       return;
     }
     else {
@@ -173,9 +174,12 @@ const string &temporary_directory_name()
 void remove_temporary_directory()
 {
   if (created_temp_dir) {
-    char command[PATH_MAX + 10];
-    sprintf(command, "rm -rf %s", temp_dir.c_str());
-    system_with_error_check(command);
+    created_temp_dir = false;
+    string command = "rm -rf " + shell_quote(temp_dir);
+    int status = system(command.c_str());
+    if (status != 0)
+      cerr << "Command `" << command << "' returned with exit status "
+	   << status << "." << endl;
   }
 }
 
-- 
2.43.0


From eff769cb99127aaa731bb1a1d3d659aaa6c548f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 19/46] fix: keep the equations of cones that cdd dualizes

The dual of a cone that is not full-dimensional contains lines.  cdd marks
their generators in its linearity line, which was ignored; the Hilbert
basis of such a cone then contained vectors outside of the cone.
---
 code/latte/dual.cpp | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/code/latte/dual.cpp b/code/latte/dual.cpp
index b218eaf..27819f7 100644
--- a/code/latte/dual.cpp
+++ b/code/latte/dual.cpp
@@ -30,6 +30,8 @@
 #include "barvinok/dec.h"
 #include "convert.h"
 #include <list>
+#include <set>
+#include <sstream>
 #include "latte_system.h"
 #include "latte_relocatable.h"
 
@@ -119,7 +121,24 @@ static void dualizeCone_with_cdd(listCone *tmp, int numOfVars)
     exit(1);
   }
 
-  skip_to_line(in, "begin", cddInFileName);
+  /* If the cone is not full-dimensional, the dual cone contains lines;
+     their generators are the rows that the `linearity' line names. */
+  std::set<int> linearity;
+  for (;;) {
+    getline(in, tmpString);
+    check_reading(in, cddInFileName);
+    if (tmpString == "begin") break;
+    if (tmpString.compare(0, 10, "linearity ") == 0) {
+      istringstream indices(tmpString.substr(10));
+      int count, index;
+      indices >> count;
+      while (indices >> index) linearity.insert(index);
+      if (linearity.size() != (size_t) count) {
+	cerr << "Malformed linearity line in file `" << cddInFileName << "'." << endl;
+	exit(1);
+      }
+    }
+  }
 
   in >> numOfVertices >> tmpInt >> tmpString;
   check_reading(in, cddInFileName);
@@ -140,9 +159,15 @@ static void dualizeCone_with_cdd(listCone *tmp, int numOfVars)
       }
     }
     w=normalizeRationalVector(w,numOfVars);
-    endFacets->rest=createListVector(w->numerators());
+    if (linearity.count(i + 1) != 0) {
+      tmp->subspace_generators
+	= appendVectorToListVector(w->numerators(), tmp->subspace_generators);
+    }
+    else {
+      endFacets->rest=createListVector(w->numerators());
+      endFacets=endFacets->rest;
+    }
     delete w;
-    endFacets=endFacets->rest;
   }
   skip_to_word(in, "end", cddInFileName);
   in.close();
-- 
2.43.0


From 69c1bb824f57d27dda194769d3ed7f01f86dd7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 20/46] fix: refuse subcone lists that were not finished

The number of subcones is -1 until the list is complete; such a list was
taken for an empty one.  Do not require a newline at the end of the file.
---
 code/latte/ReadSubcones.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/code/latte/ReadSubcones.cpp b/code/latte/ReadSubcones.cpp
index 3cfa1b6..89c8747 100644
--- a/code/latte/ReadSubcones.cpp
+++ b/code/latte/ReadSubcones.cpp
@@ -27,7 +27,7 @@ using namespace std;
 
 static void check_stream(const istream &f, const char *fileName, const char *proc)
 {
-  if (!f.good()) {
+  if (!f) {
     cerr << "Read error on input file " << fileName << " in " << proc << "." << endl;
     exit(1);
   }
@@ -77,6 +77,11 @@ ReadSubcones(listCone *master_cone, int numOfVars,
 	 << endl;
     exit(1);
   }
+  if (numOfSubcones < 0) {
+    // The number of subcones is written last.
+    cerr << "Subcones file " << fileName << " is incomplete." << endl;
+    exit(1);
+  }
   int i;
   vector<listVector *> rays = ray_array(master_cone);
   vector<bool> ray_indicator(numOfRays);
-- 
2.43.0


From b16f84045f6de6efbff071e1fdc4d58e532420e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 21/46] fix: refuse incomplete lists of cones, and detect
 failed writes of them

A list of cones that was cut off inside a cone was read as a shorter list,
crashed the reader or kept it busy for ever.
---
 code/latte/cone_consumer.cpp | 12 +++++-
 code/latte/print.cpp         | 76 +++++++++++++++++++++++-------------
 2 files changed, 59 insertions(+), 29 deletions(-)

diff --git a/code/latte/cone_consumer.cpp b/code/latte/cone_consumer.cpp
index c314db0..07a9e9e 100644
--- a/code/latte/cone_consumer.cpp
+++ b/code/latte/cone_consumer.cpp
@@ -47,7 +47,12 @@ int CollectingConeConsumer::ConsumeCone(listCone *cone)
 
 PrintingConeConsumer::PrintingConeConsumer(string filename)
   : stream(filename.c_str()), cone_count(0)
-{}
+{
+  if (!stream) {
+    cerr << "Cannot write to file `" << filename << "'" << endl;
+    exit(1);
+  }
+}
 
 int
 PrintingConeConsumer::ConsumeCone(listCone *cone)
@@ -56,6 +61,11 @@ PrintingConeConsumer::ConsumeCone(listCone *cone)
   int numOfVars = cone->rays->first.length();
   cone_count++;
   printConeToFile(stream, cone, numOfVars);
+  stream.flush();
+  if (!stream) {
+    cerr << "Error writing to cone file" << endl;
+    exit(1);
+  }
   freeCone(cone);
   return 1; // means "success, please continue"
 }
diff --git a/code/latte/print.cpp b/code/latte/print.cpp
index 5a15406..5194409 100644
--- a/code/latte/print.cpp
+++ b/code/latte/print.cpp
@@ -32,6 +32,7 @@
 #include "cone.h"
 #include "ramon.h"
 #include "print.h"
+#include "latte_system.h"
 #include "gnulib/pathmax.h"
 
 /* ----------------------------------------------------------------- */
@@ -205,15 +206,21 @@ void printConeToFile(ostream & out,listCone* cones, int numOfVars)
 /* ----------------------------------------------------------------- */
 
 
-static bool
+static void
+malformed(const char *what)
+{
+  cerr << "Malformed or incomplete list of cones: " << what << "." << endl;
+  exit(1);
+}
+
+static void
 look_for(istream &in, const char *token)
 {
   string s;
-  while (in.good()) {
-    in >> s;
-    if (s == token) return true;
+  while (in >> s) {
+    if (s == token) return;
   }
-  return false;
+  malformed((string("expected `") + token + "'").c_str());
 }
 
 static void
@@ -230,16 +237,16 @@ readListVector(istream &in)
 {
   listVector *result = NULL;
   listVector **end_p = &result;
-  while (in.good()) {
+  while (true) {
     vec_ZZ v;
     skip_space(in);
     if (in.peek() != '[') break;
     in >> v;
-    if (in.good()) {
-      *end_p = new listVector(v);
-      end_p = &(*end_p)->rest;
-    }
+    if (!in) malformed("cannot read a vector");
+    *end_p = new listVector(v);
+    end_p = &(*end_p)->rest;
   }
+  if (result == NULL) malformed("expected a list of vectors");
   if (result->rest == NULL
       && result->first.length() == 0) {
     /* Read [], which is meant to designate an empty list,
@@ -270,49 +277,58 @@ Lattice points in parallelepiped:
 ==========
  */
 
+/* Returns NULL if there are no more cones. */
 listCone *
 readConeFromFile(istream &in)
 {
-  if (!look_for(in, "Cone.")) return NULL;
+  static const char separator[] = "==========";
+  string word;
+  if (!(in >> word)) {
+    if (in.bad()) malformed("read error");
+    return NULL;
+  }
+  if (word == "No") {
+    /* "No cones in list." */
+    look_for(in, "list.");
+    return readConeFromFile(in);
+  }
+  if (word == separator) in >> word;
+  if (!in || word != "Cone.") malformed("expected `Cone.'");
   listCone *cone = createListCone();
-  if (!look_for(in, "Coefficient:")) return NULL;
+  look_for(in, "Coefficient:");
   in >> cone->coefficient;
-  if (!in.good()) return NULL;
-  if (!look_for(in, "Vertex:")) return NULL;
-  /* FIXME: Actually need to handle rational data */
+  if (!in) malformed("cannot read a coefficient");
+  look_for(in, "Vertex:");
   skip_space(in);
 
   //read in a vertex.
-  if (in.peek() != '[') return NULL;
+  if (in.peek() != '[') malformed("expected a vertex");
   in.get(); //delete the [
   vector<RationalNTL> elements;
   RationalNTL oneTerm;
 
+  skip_space(in);
   while(in.peek() != ']')
   {
+	  if (!isdigit(in.peek()) && in.peek() != '-' && in.peek() != '+')
+	    malformed("cannot read a vertex");
 	  in >> oneTerm;
 	  skip_space(in);
 	  elements.push_back(oneTerm);
   }
-
-
-
-  //vec_ZZ v;
-  //in >> v;
-  if (!in.good()) return NULL; //not sure what this does.--Brandon
-  //ZZ denom;
-  //denom = 1;
-  //cone->vertex = new Vertex(new rationalVector(v, denom));
+  in.get(); //delete the ]
 
   //now save the vertex information.
   cone->vertex = new Vertex(new rationalVector(elements));
 
   //end of reading 1 vertex.
 
-  if (!look_for(in, "rays:")) return NULL;
+  look_for(in, "rays:");
   cone->rays = readListVector(in);
-  if (!look_for(in, "Facets:")) return NULL;
+  look_for(in, "Facets:");
   cone->facets = readListVector(in);
+  /* Without the line that ends a cone, the file has been cut off. */
+  look_for(in, separator);
   return cone;
 }
 
@@ -332,7 +348,7 @@ void printListConeToFile(const char *fileName, listCone* cones, int numOfVars) {
   }
   out << endl;
 
-  out.close();
+  close_with_error_check(out, fileName);
   return ;
 }
 /* ----------------------------------------------------------------- */
@@ -351,6 +367,10 @@ listCone *
 readListConeFromFile(const char *filename)
 {
   ifstream in(filename);
+  if (!in) {
+    cerr << "Error opening file `" << filename << "'" << endl;
+    exit(1);
+  }
   return readListConeFromFile(in);
 }
 
-- 
2.43.0


From ee97efaba40d0ed07be2f3ed4c194c55563642e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 22/46] fix: let simultaneous runs for different subcones write
 different .triang files

Workers started on different --subcones files of one cone wrote, and read
back, the same file INPUT.triang, so that cones were lost.
---
 code/latte/normalize/normalize.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/code/latte/normalize/normalize.cpp b/code/latte/normalize/normalize.cpp
index 9f6c2e8..02e3f08 100644
--- a/code/latte/normalize/normalize.cpp
+++ b/code/latte/normalize/normalize.cpp
@@ -361,7 +361,9 @@ handle_cone(listCone *t, int t_count, int t_total, int level)
   }
 }
 
-static void open_output_and_stats()
+// Runs that handle different subcones of the same cone (at the same
+// time) write files of different names.
+static string output_base_filename()
 {
   string base_filename = filename;
   if (subcones_filename.length() > 0) {
@@ -372,7 +374,12 @@ static void open_output_and_stats()
     else
       base_filename += subcones_filename.substr(slash + 1);
   }
-  
+  return base_filename;
+}
+
+static void open_output_and_stats()
+{
+  string base_filename = output_base_filename();
   hil_filename = base_filename + ".hil";
   if (verbosity > 0) {
     cerr << "Output goes to file `" << hil_filename << "'..." << endl;
@@ -796,7 +803,7 @@ int normalize_main(int argc, char **argv)
       // Create a .triang file, then read it back in again one-by-one
       // and feed it to the normalizer.
       size_t num_cones;
-      triang_filename = filename + ".triang";
+      triang_filename = output_base_filename() + ".triang";
       {
 	PrintingConeConsumer triang_file_writer(triang_filename);
 	producer->Produce(triang_file_writer);
-- 
2.43.0


From 6d6a25ee649e2d7af514867e7690fe65aca18424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 23/46] fix: do not subdivide cones that cannot be subdivided

With --max-facets or --zsolve-time-limit, simplicial cones (and, with
prescribed heights, cones that the heights leave whole) were subdivided
into themselves until the stack overflowed.  Accept a vector file without
a newline at its end.
---
 code/latte/normalize/normalize.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/code/latte/normalize/normalize.cpp b/code/latte/normalize/normalize.cpp
index 02e3f08..cab01f3 100644
--- a/code/latte/normalize/normalize.cpp
+++ b/code/latte/normalize/normalize.cpp
@@ -131,19 +131,22 @@ public:
   int t_count;
   int t_level;
   int t_total;
-  RecursiveNormalizer(int level) : t_count(0), t_level(level), t_total(0) {};
+  int t_parent_rays;
+  RecursiveNormalizer(int level, int parent_rays = 0)
+    : t_count(0), t_level(level), t_total(0), t_parent_rays(parent_rays) {};
   int ConsumeCone(listCone *cone);
   void SetNumCones(size_t num_cones) { t_total = num_cones; }
 };
 
 static void
-handle_cone(listCone *t, int t_count, int t_total, int level);
+handle_cone(listCone *t, int t_count, int t_total, int level, bool undivided);
 
 int
 RecursiveNormalizer::ConsumeCone(listCone *cone)
 {
   t_count++;
-  handle_cone(cone, t_count, t_total, t_level);
+  handle_cone(cone, t_count, t_total, t_level,
+	      /*undivided:*/ lengthListVector(cone->rays) == t_parent_rays);
   freeCone(cone);
   return 1; /* OK */
 }
@@ -190,7 +193,7 @@ public:
 int zsolve_time_limit = 0;
 
 static void
-handle_cone(listCone *t, int t_count, int t_total, int level)
+handle_cone(listCone *t, int t_count, int t_total, int level, bool undivided)
 {
   params.Number_of_Variables = t->rays->first.length();
   if (hil_file_writer == NULL) {
@@ -225,6 +228,12 @@ handle_cone(listCone *t, int t_count, int t_total, int level)
   dualizeCone(t, params.Number_of_Variables, &params); // just swaps back
   dualization_time.stop();
   num_facets = lengthListVector(t->facets);
+  int cone_dimension = params.Number_of_Variables - lengthListVector(t->equalities);
+  /* Simplicial cones cannot be subdivided further, nor can a cone that
+     a subdivision with the same heights has left whole. */
+  bool same_heights = params.triangulation_prescribed_height_data != NULL
+    || params.triangulation == BarvinokParameters::DeloneTriangulationWithCddlib;
+  bool indivisible = num_rays == cone_dimension || (undivided && same_heights);
   if (verbosity > 0) {
     if (t->determinant != 0)
       cerr << ", determinant " << abs(t->determinant);
@@ -260,11 +269,9 @@ handle_cone(listCone *t, int t_count, int t_total, int level)
       stats << endl;
     }
   }
-  else if (num_facets < max_facets) {
+  else if (indivisible || num_facets < max_facets) {
     // Use zsolve to compute the Hilbert basis.
 
-    int cone_dimension = params.Number_of_Variables - lengthListVector(t->equalities);
-    
     //printCone(t, params.Number_of_Variables);
     _4ti2_zsolve_::LinearSystem<int> *ls
       = facets_to_4ti2_zsolve_LinearSystem(t->facets, t->equalities, params.Number_of_Variables);
@@ -278,7 +285,7 @@ handle_cone(listCone *t, int t_count, int t_total, int level)
     _4ti2_zsolve_::Options options(argc, argv);
     _4ti2_zsolve_::DefaultController<int> * controller
       = new NormalizController<int>(&std::cout, NULL, options,
-				    zsolve_time_limit);
+				    indivisible ? 0 : zsolve_time_limit);
     _4ti2_zsolve_::Algorithm<int> *zsolve_algo
       = new _4ti2_zsolve_::Algorithm<int> (ls, controller);
     delete ls;
@@ -347,7 +354,7 @@ handle_cone(listCone *t, int t_count, int t_total, int level)
       if (verbosity > 0) {
 	cerr << "Spent too much time in zsolve, subdividing..." << endl;
       }
-      RecursiveNormalizer rec(level + 1);
+      RecursiveNormalizer rec(level + 1, num_rays);
       triangulateCone(t, params.Number_of_Variables, &params, rec);
     }
   }
@@ -356,7 +363,7 @@ handle_cone(listCone *t, int t_count, int t_total, int level)
     if (verbosity > 0) {
       cerr << "Too many facets, subdividing..." << endl;
     }
-    RecursiveNormalizer rec(level + 1);
+    RecursiveNormalizer rec(level + 1, num_rays);
     triangulateCone(t, params.Number_of_Variables, &params, rec);
   }
 }
@@ -469,7 +476,7 @@ usage()
 
 static void check_stream(const istream &f, const char *fileName, const char *proc)
 {
-  if (!f.good()) {
+  if (!f) {
     cerr << "Read error on input file " << fileName << " in " << proc << "." << endl;
     exit(1);
   }
-- 
2.43.0


From 304bcfb6b128f39c483c71c402ca2607c3a9d8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:55 +0000
Subject: [PATCH 24/46] fix: keep the equations and refuse damaged files in
 ConvertCDDineToLatte

---
 code/latte/convertCDD_ine_to_latte.cpp | 45 ++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/code/latte/convertCDD_ine_to_latte.cpp b/code/latte/convertCDD_ine_to_latte.cpp
index 32e6907..0b944ef 100644
--- a/code/latte/convertCDD_ine_to_latte.cpp
+++ b/code/latte/convertCDD_ine_to_latte.cpp
@@ -9,6 +9,7 @@
 #include <string>
 #include <sstream>
 #include <cassert>
+#include <cstdlib>
 #include <vector>
 #include "rational.h"
 #include <NTL/ZZ.h>
@@ -29,16 +30,40 @@ int main( int argc, const char* argv[] )
 	ofstream output(argv[2]);
 	string line;
 	vector<RationalNTL> hRep;
+	string linearity;
 	long numRows, ambDim;
 	ZZ lcmDenom;
 
+	if (!input)
+	{
+		cerr << "Cannot open input file " << argv[1] << endl;
+		exit(1);
+	}
+	if (!output)
+	{
+		cerr << "Cannot open output file " << argv[2] << endl;
+		exit(1);
+	}
+
 	while ( getline(input, line))
+	{
 		if ( line == "begin")
 			break;
+		// Equations are listed in the same way in both formats.
+		istringstream words(line);
+		string word;
+		if (words >> word && word == "linearity")
+			linearity = line.substr(line.find(word));
+	}
 //	getline(input, line);
 
 	input >> numRows >> ambDim;
 	input.ignore(250, '\n');
+	if (!input || numRows < 0 || ambDim < 0)
+	{
+		cerr << "Cannot read the size of the matrix in " << argv[1] << endl;
+		exit(1);
+	}
 	output << numRows << " " << ambDim << endl;
 	hRep.resize(ambDim);
 
@@ -49,6 +74,11 @@ int main( int argc, const char* argv[] )
 		{
 			string temp;
 			input >> temp;
+			if (!input || temp.find_first_not_of("+-/0123456789") != string::npos)
+			{
+				cerr << "Cannot read row " << i + 1 << " of the matrix in " << argv[1] << endl;
+				exit(1);
+			}
 			hRep[k] = RationalNTL(temp);
 			RationalNTL product;
 			lcmDenom = (hRep[k].getDenominator() * lcmDenom)/ (GCD(lcmDenom, hRep[k].getDenominator()));
@@ -59,7 +89,22 @@ int main( int argc, const char* argv[] )
 
 	}//for each row.
 
+	// A file that has been cut off may end in the middle of a number.
+	if (!(input >> line) || line != "end")
+	{
+		cerr << "Cannot find the end of the matrix in " << argv[1] << endl;
+		exit(1);
+	}
+
+	if (linearity.size() != 0)
+		output << linearity << endl;
+
 	input.close();
 	output.close();
+	if (!output)
+	{
+		cerr << "Cannot write to output file " << argv[2] << endl;
+		exit(1);
+	}
 	return 0;
 }
-- 
2.43.0


From 6cbbe3e4fd16c7feab23ed8a7a6044687a3abd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:55 +0000
Subject: [PATCH 25/46] fix: refuse an empty file of cones

---
 code/latte/cone_consumer.cpp | 10 ++++++++++
 code/latte/cone_consumer.h   |  1 +
 code/latte/print.cpp         | 10 ++++++++++
 3 files changed, 21 insertions(+)

diff --git a/code/latte/cone_consumer.cpp b/code/latte/cone_consumer.cpp
index 07a9e9e..ba2311a 100644
--- a/code/latte/cone_consumer.cpp
+++ b/code/latte/cone_consumer.cpp
@@ -54,6 +54,16 @@ PrintingConeConsumer::PrintingConeConsumer(string filename)
   }
 }
 
+PrintingConeConsumer::~PrintingConeConsumer()
+{
+  if (cone_count == 0)
+    stream << "No cones in list." << endl;
+  if (!stream) {
+    cerr << "Error writing to cone file" << endl;
+    exit(1);
+  }
+}
+
 int
 PrintingConeConsumer::ConsumeCone(listCone *cone)
 {
diff --git a/code/latte/cone_consumer.h b/code/latte/cone_consumer.h
index 5ff8f45..c39d4fc 100644
--- a/code/latte/cone_consumer.h
+++ b/code/latte/cone_consumer.h
@@ -49,6 +49,7 @@ class PrintingConeConsumer : public ConeConsumer {
 public:
   int cone_count;
   PrintingConeConsumer(string filename);
+  ~PrintingConeConsumer();
   int ConsumeCone(listCone *cone);
 };
 
diff --git a/code/latte/print.cpp b/code/latte/print.cpp
index 5194409..fd337f2 100644
--- a/code/latte/print.cpp
+++ b/code/latte/print.cpp
@@ -351,12 +351,21 @@ void printListConeToFile(const char *fileName, listCone* cones, int numOfVars) {
   close_with_error_check(out, fileName);
   return ;
 }
+/* A list of no cones says so; an empty file is one that was never written. */
+static void
+check_not_empty(istream &in)
+{
+  skip_space(in);
+  if (in.peek() == EOF) malformed("the file is empty");
+}
+
 /* ----------------------------------------------------------------- */
 listCone *
 readListConeFromFile(istream &in)
 {
   listCone *result = NULL;
   listCone **tail_p = &result;
+  check_not_empty(in);
   while ((*tail_p = readConeFromFile(in)) != NULL) {
     tail_p = &(*tail_p)->rest;
   }
@@ -379,6 +388,7 @@ void
 readListConeFromFile(istream &in, ConeConsumer &consumer)
 {
   listCone *cone;
+  check_not_empty(in);
   while ((cone = readConeFromFile(in)) != NULL)
     consumer.ConsumeCone(cone);
 }
-- 
2.43.0


From 713b205a18e35d171e88f8f774d48fe0c4f192e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:55 +0000
Subject: [PATCH 26/46] fix: print the numerator of every Ehrhart series

---
 code/latte/RudyResNTL.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/latte/RudyResNTL.cpp b/code/latte/RudyResNTL.cpp
index 51b2877..511d51c 100644
--- a/code/latte/RudyResNTL.cpp
+++ b/code/latte/RudyResNTL.cpp
@@ -47,7 +47,7 @@ vec_ZZ ResidueFunction(listCone* cones, int numOfVars, int print_flag,
   int numOfTerms, DEGREE = 1;
 //  char outFileName[127];
   listVector *tmp;
-  static int never_printed = 1;
+  int never_printed = 1;
   listCone *C, * cones1;
   int OUTPUT_S_T_FUNCTION = 0, COMPUTE_SUM_MAPLE = 0, OUTPUT_CONE = 0, OUTPUT_CONE_MULTI = 0;
   int dim, noGsPerC,noCones; //noGsPerC is number of generators per cone
-- 
2.43.0


From 61a4fe833dc97b77f8b18fd982c9360292b85483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:55 +0000
Subject: [PATCH 27/46] fix: refuse incomplete integrands and integrands in the
 wrong number of variables

---
 code/latte/valuation/valuation.cpp | 130 +++++++++++++++++++++++++++++
 1 file changed, 130 insertions(+)

diff --git a/code/latte/valuation/valuation.cpp b/code/latte/valuation/valuation.cpp
index dc1a9bb..35202d3 100644
--- a/code/latte/valuation/valuation.cpp
+++ b/code/latte/valuation/valuation.cpp
@@ -11,6 +11,122 @@
 
 //defines the input file/string.
 
+using Valuation::IntegrationInput;
+
+namespace {
+
+/**
+ * Checks that an integrand is complete and well-formed, before it is used:
+ *
+ *   polynomial                 [[c,[e1,...,en]], ...]
+ *   powers of linear forms     [[c,[p,[l1,...,ln]]], ...]
+ *   products of such powers    [[c,[[p,[l1,...,ln]], ...]], ...]
+ *
+ * where the coefficients c are rational and all other numbers are integers.
+ * White space may appear between any two tokens.
+ */
+class IntegrandChecker
+{
+public:
+	IntegrandChecker(const string &integrand, int numOfVars) :
+		text(integrand), pos(0), dimension(numOfVars) {}
+
+	bool check(IntegrationInput::IntegrandType type)
+	{
+		pos = 0;
+		if (!next('['))
+			return false;
+		do
+		{
+			if (!next('[') || !rational() || !next(','))
+				return false;
+			if (type == IntegrationInput::inputPolynomial)
+			{
+				if (!vector())
+					return false;
+			} else if (type == IntegrationInput::inputLinearForm)
+			{
+				if (!power())
+					return false;
+			} else
+			{
+				if (!next('['))
+					return false;
+				do
+				{
+					if (!power())
+						return false;
+				} while (next(','));
+				if (!next(']'))
+					return false;
+			}
+			if (!next(']'))
+				return false;
+		} while (next(','));
+		if (!next(']'))
+			return false;
+		skipSpace();
+		return pos == text.size();
+	}
+
+private:
+	const string &text;
+	size_t pos;
+	int dimension;
+
+	void skipSpace()
+	{
+		while (pos < text.size() && isspace((unsigned char) text[pos]))
+			pos++;
+	}
+
+	bool next(char c)
+	{
+		skipSpace();
+		if (pos >= text.size() || text[pos] != c)
+			return false;
+		pos++;
+		return true;
+	}
+
+	bool integer()
+	{
+		if (!next('-'))
+			next('+');
+		skipSpace();
+		size_t first = pos;
+		while (pos < text.size() && isdigit((unsigned char) text[pos]))
+			pos++;
+		return pos > first;
+	}
+
+	bool rational()
+	{
+		return integer() && (!next('/') || integer());
+	}
+
+	bool vector()
+	{
+		int entries = 0;
+		if (!next('['))
+			return false;
+		do
+		{
+			if (!integer())
+				return false;
+			entries++;
+		} while (next(','));
+		return next(']') && entries == dimension;
+	}
+
+	bool power()
+	{
+		return next('[') && integer() && next(',') && vector() && next(']');
+	}
+};
+
+} // namespace
+
 /**
  * Computes the volume of the polytope.
  * The triangulation method will not change the org. polytope, but the
@@ -865,6 +981,20 @@ Valuation::ValuationContainer Valuation::mainValuationDriver(
 				//integrationInput.integrand = integrandLine;
 			}//user supplied integrand in a file.
 
+			if (integrationInput.integrandType == IntegrationInput::inputPolynomial
+				|| integrationInput.integrandType == IntegrationInput::inputLinearForm
+				|| integrationInput.integrandType == IntegrationInput::inputProductLinearForm)
+			{
+				int numOfVars = (Poly->homogenized ? Poly->numOfVars - 1 : Poly->numOfVars);
+				IntegrandChecker checker(integrationInput.integrand, numOfVars);
+				if (!checker.check(integrationInput.integrandType))
+				{
+					cerr << "The integrand is incomplete or malformed, or is not in "
+						 << numOfVars << " variables." << endl;
+					THROW_LATTE( LattException::ue_BadPolynomialLinFormInput, 0);
+				}
+			}
+
 
 			if (integrationInput.topEhrhart) {
 				computeTopEhrhart(Poly, *params, integrationInput);
-- 
2.43.0


From 0c46fcf5118c9cb7f783a51a997869b4bf6b8324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:21 +0000
Subject: [PATCH 28/46] fix: refuse negative exponents and zero denominators in
 integrands

---
 code/latte/valuation/valuation.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/code/latte/valuation/valuation.cpp b/code/latte/valuation/valuation.cpp
index 35202d3..3d7cbb7 100644
--- a/code/latte/valuation/valuation.cpp
+++ b/code/latte/valuation/valuation.cpp
@@ -22,7 +22,8 @@ namespace {
  *   powers of linear forms     [[c,[p,[l1,...,ln]]], ...]
  *   products of such powers    [[c,[[p,[l1,...,ln]], ...]], ...]
  *
- * where the coefficients c are rational and all other numbers are integers.
+ * where the coefficients c are rational, the exponents e and powers p are
+ * nonnegative integers, and the entries l are integers.
  * White space may appear between any two tokens.
  */
 class IntegrandChecker
@@ -42,7 +43,7 @@ public:
 				return false;
 			if (type == IntegrationInput::inputPolynomial)
 			{
-				if (!vector())
+				if (!vector(false))
 					return false;
 			} else if (type == IntegrationInput::inputLinearForm)
 			{
@@ -89,30 +90,31 @@ private:
 		return true;
 	}
 
-	bool integer()
+	bool integer(bool allowNegative, bool allowZero = true)
 	{
-		if (!next('-'))
+		if (!(allowNegative && next('-')))
 			next('+');
 		skipSpace();
 		size_t first = pos;
+		bool zero = true;
 		while (pos < text.size() && isdigit((unsigned char) text[pos]))
-			pos++;
-		return pos > first;
+			zero = (text[pos++] == '0') && zero;
+		return pos > first && (allowZero || !zero);
 	}
 
 	bool rational()
 	{
-		return integer() && (!next('/') || integer());
+		return integer(true) && (!next('/') || integer(true, false));
 	}
 
-	bool vector()
+	bool vector(bool allowNegative)
 	{
 		int entries = 0;
 		if (!next('['))
 			return false;
 		do
 		{
-			if (!integer())
+			if (!integer(allowNegative))
 				return false;
 			entries++;
 		} while (next(','));
@@ -121,7 +123,7 @@ private:
 
 	bool power()
 	{
-		return next('[') && integer() && next(',') && vector() && next(']');
+		return next('[') && integer(false) && next(',') && vector(true) && next(']');
 	}
 };
 
-- 
2.43.0


From 681b60ed4bbd08b302fc25bf6ae2c9ed7a7df0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:24 +0000
Subject: [PATCH 29/46] fix: read integrands with white space between brackets

---
 code/latte/valuation/valuation.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/code/latte/valuation/valuation.cpp b/code/latte/valuation/valuation.cpp
index 3d7cbb7..aa28f1a 100644
--- a/code/latte/valuation/valuation.cpp
+++ b/code/latte/valuation/valuation.cpp
@@ -8,6 +8,7 @@
 #include "valuation.h"
 #include "latte_system.h"
 #include <iomanip>
+#include <cctype>
 
 //defines the input file/string.
 
@@ -995,6 +996,12 @@ Valuation::ValuationContainer Valuation::mainValuationDriver(
 						 << numOfVars << " variables." << endl;
 					THROW_LATTE( LattException::ue_BadPolynomialLinFormInput, 0);
 				}
+				// The parsers expect brackets that close together without space.
+				string compact;
+				for (size_t i = 0; i < integrationInput.integrand.size(); i++)
+					if (!isspace((unsigned char) integrationInput.integrand[i]))
+						compact += integrationInput.integrand[i];
+				integrationInput.integrand = compact;
 			}
 
 
-- 
2.43.0


From f80747ed8bf51790b3c4e13d3da26596a6091de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:39 +0000
Subject: [PATCH 30/46] fix: let LattException::what() return a string that
 lives as long as the exception

---
 code/latte/LattException.cpp | 8 +++-----
 code/latte/LattException.h   | 1 +
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/code/latte/LattException.cpp b/code/latte/LattException.cpp
index 5cc1350..b56ea73 100644
--- a/code/latte/LattException.cpp
+++ b/code/latte/LattException.cpp
@@ -17,6 +17,8 @@ LattException::LattException(UserError ue, const char * file, const int line, co
 	lineNumber = line;
 	msg = message;
 	printStatus = b;
+	if ( LATTEXCEPTION_PRINTSTATUS || printStatus == 1 )
+		whatMessage = printErrorMessages();
 }
 
 
@@ -58,9 +60,5 @@ string  LattException::printErrorMessages() const
 
 const char* LattException::what() const throw()
 {
-	string s = "";
-	if ( LATTEXCEPTION_PRINTSTATUS || printStatus == 1 )
-	s = printErrorMessages();
-
-	return s.c_str();
+	return whatMessage.c_str();
 }
diff --git a/code/latte/LattException.h b/code/latte/LattException.h
index 812d996..63d3b1a 100644
--- a/code/latte/LattException.h
+++ b/code/latte/LattException.h
@@ -89,6 +89,7 @@ private:
 
 	UserError userError;
 	string msg; //error message from programmer.
+	string whatMessage; //what() points to this.
 	int lineNumber;
 	string fileName;
 	bool printStatus;
-- 
2.43.0


From 45e30f5dbbf86218a85dcc5914e5a85a32d55ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:39 +0000
Subject: [PATCH 31/46] fix: refuse V-representations without a size or with
 too many rows

---
 code/latte/vertices/cdd.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/code/latte/vertices/cdd.cpp b/code/latte/vertices/cdd.cpp
index c6bf7b3..4465dc4 100644
--- a/code/latte/vertices/cdd.cpp
+++ b/code/latte/vertices/cdd.cpp
@@ -320,6 +320,7 @@ void createCddExtFile2(const char* filename)
 		exit(1);
 	}
 	in >> numOfVec >> numOfVars;
+	check_reading(in, filename);
 	ofstream OUT;
 	getline(in, tmpString);
 	OUT.open("latte_cdd.ext");
@@ -332,6 +333,12 @@ void createCddExtFile2(const char* filename)
 		check_reading(in, filename);
 		OUT << tmpString << endl;
 	}
+	if (in >> tmpString)
+	{
+		cerr << "Unexpected `" << tmpString << "' after the matrix in input file `"
+			<< filename << "'" << endl;
+		exit(1);
+	}
 	OUT << "end" << endl;
 	OUT << "hull" << endl;
 	close_with_error_check(OUT, "latte_cdd.ext");
-- 
2.43.0


From 46679c40664917ad24df9903a41bf3515ebdbc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:45 +0000
Subject: [PATCH 32/46] fix: report errors from running a database statement,
 and wait for a busy database there too

---
 code/latte/sqlite/SqliteDB.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/code/latte/sqlite/SqliteDB.cpp b/code/latte/sqlite/SqliteDB.cpp
index 903b2f3..815881e 100644
--- a/code/latte/sqlite/SqliteDB.cpp
+++ b/code/latte/sqlite/SqliteDB.cpp
@@ -113,11 +113,30 @@ vector<vector<string> > SqliteDB::query(const char* query)
 				}//for every col in the current row.
 				results.push_back(values);
 			}//if there are results
+			else if(result == SQLITE_BUSY)
+			{
+				//another program holds the lock: run the whole statement again.
+				cout << "Database is busy, sleeping for 5sec." << endl;
+				sqlite3_reset(statement);
+				results.clear();
+				sleep(5);
+				cout << "Re-running sql:" << query << endl;
+			}//if the db is busy
 			else
 			{
 				break;  
 			}
 		}//while there are more rows
+
+		if(result != SQLITE_DONE)
+		{
+			string error = sqlite3_errmsg(dbPtr);
+			sqlite3_finalize(statement);
+			stringstream s;
+			s << "SqliteDB ERROR:: ." << query << ". " << error << endl;
+			cout << s.str().c_str() << endl;
+			throw SqliteDBexception(s.str());
+		}//if the statement did not complete
 	        
 		sqlite3_finalize(statement);//free up the memory.
 	}//if no errors
-- 
2.43.0


From ff4de23359019728009de2754a6fa1a4165a36cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:45 +0000
Subject: [PATCH 33/46] fix: finish building a test class when only one of its
 two halves exists

---
 code/latte/sqlite/IntegrationDB.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/latte/sqlite/IntegrationDB.cpp b/code/latte/sqlite/IntegrationDB.cpp
index c1dde83..3f31eaa 100644
--- a/code/latte/sqlite/IntegrationDB.cpp
+++ b/code/latte/sqlite/IntegrationDB.cpp
@@ -1219,14 +1219,14 @@ void IntegrationDB::insertIntegrationTest(int dim, int degree, int vertexCount,
 	//check if we really can make 'count' many integration tests and dual integration tets.
 	if (numPolynomials < count)
 		throw SqliteDBexception("insertIntegrationTest::Not enough polynomials exist");
-	if (numPolynomials < count)
+	if (numPolytopes < count)
 		throw SqliteDBexception("insertIntegrationTest::Not enough polytopes exist");
 	if (numDualPolytopes < count)
 		throw SqliteDBexception("insertIntegrationTest::not enough dual polytopes exist");
 
 	//ok, now we know we can make count many integration tests! so lets do it.
 
-	if ( count - numIntegrationTests  <= 0)
+	if ( count - numIntegrationTests  <= 0 && count - numDualIntegrationTests <= 0)
 	{
 		cout << "There already exist " << numIntegrationTests << " tests; in fact, there might be more." << endl;
 		return;
@@ -1235,7 +1235,7 @@ void IntegrationDB::insertIntegrationTest(int dim, int degree, int vertexCount,
 	if (numIntegrationTests < count)
 		makeMoreIntegrationTests(dim, degree, vertexCount, false, count, numIntegrationTests);
 	if (numDualIntegrationTests < count)
-		makeMoreIntegrationTests(dim, degree, vertexCount, true, count, numIntegrationTests);
+		makeMoreIntegrationTests(dim, degree, vertexCount, true, count, numDualIntegrationTests);
 }//insertIntegrationTest
 
 void  IntegrationDB::insertSpecficPolytopeIntegrationTest(string polymakeFile, int degree, int count)
-- 
2.43.0


From cc2a1c87250c8568ebd453b24d35b87c6a29bd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:45 +0000
Subject: [PATCH 34/46] fix: count unfinished and skipped tests in the per-file
 table

---
 code/latte/sqlite/IntegrationDB.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/code/latte/sqlite/IntegrationDB.cpp b/code/latte/sqlite/IntegrationDB.cpp
index 3f31eaa..8db4760 100644
--- a/code/latte/sqlite/IntegrationDB.cpp
+++ b/code/latte/sqlite/IntegrationDB.cpp
@@ -1002,8 +1002,7 @@ vector<double> IntegrationDB::getStatisticsAvgMinMaxCount(AlgorithemUsed alg, co
 			<< " where i.polynomialID = p.rowid and i.polytopeID = dualP.rowid " //join with p, i, dualP
 			<< " and dualP.dual is not null and dualP.dual = orgP.rowid" //and with orgp
 			<< " and orgP.polymakeFilePath = '" << polymakeFile << "'"
-			<< " and p.degree = " << degree
-			<< " and i." << strAlg << " >= 0 ";
+			<< " and p.degree = " << degree;
 	}//if dual
 	else
 	{
@@ -1013,8 +1012,7 @@ vector<double> IntegrationDB::getStatisticsAvgMinMaxCount(AlgorithemUsed alg, co
 			<< " where i.polynomialID = p.rowid and i.polytopeID = t.rowid " //join with p, i, dualP
 			<< " and t.dual is null"
 			<< " and t.polymakeFilePath = '" << polymakeFile << "'"
-			<< " and p.degree = " << degree
-			<< " and i." << strAlg << " >= 0 ";
+			<< " and p.degree = " << degree;
 	}//regular
 
 	//get the data and save it
-- 
2.43.0


From 20e97d8de463ef315266afb7ce1ea8b2cb8e67f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:40 +0000
Subject: [PATCH 35/46] fix: compute the bounds of the binary search exactly

With floating-point sums the lower bound could be rounded up past the only
value the cost takes on the lattice points, and a wrong optimal value was printed.
---
 code/latte/binarySearchIP.cpp | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/code/latte/binarySearchIP.cpp b/code/latte/binarySearchIP.cpp
index d5fa207..5fe7c8d 100644
--- a/code/latte/binarySearchIP.cpp
+++ b/code/latte/binarySearchIP.cpp
@@ -250,13 +250,28 @@ ZZ OptimalCheck(listVector* matrix, listVector* ineq, int numOfVars, ZZ rhs, vec
 
 /* ----------------------------------------------------------------- */
 
+/* The smallest integer that is at least the value of cost at the rational point. */
+static ZZ ceilOfCost(const vec_ZZ &cost, rationalVector *point)
+{
+  ZZ num, den;
+
+  den = 1;
+  for (int i = 0; i < cost.length(); i++) {
+    num = num * point->denominators()[i] + cost[i] * point->numerators()[i] * den;
+    den *= point->denominators()[i];
+  }
+  return -((-num) / den);
+}
+
+/* ----------------------------------------------------------------- */
+
 ZZ binarySearch(listVector* matrix, listVector* ineq, vec_ZZ cost, int numOfVars, char * min)
 {
       int i = 0, counter = 0;
       ZZ low, high, mid, Opt, TotalNumOfUniCones;
       rationalVector *Low_opt, *High_opt;
-      vec_RR Low_solution, High_solution, tmp_den, tmp_num, Rat_cost, Rat_cost2;
-      RR Rat_low, Rat_high;
+      vec_RR High_solution, tmp_den, tmp_num, Rat_cost;
+      RR Rat_high;
       vec_ZZ low_cost;
       // cerr << cost << endl;
       low_cost = -cost;
@@ -272,12 +287,10 @@ ZZ binarySearch(listVector* matrix, listVector* ineq, vec_ZZ cost, int numOfVars
       //cerr << Low_opt ->denominators() << " " << High_opt->denominators()<< endl;
       cerr << "A optimal solution for LP relax.: ";
       printRationalVector(High_opt, numOfVars);
-      Low_solution.SetLength(numOfVars);
       High_solution.SetLength(numOfVars);
       tmp_den.SetLength(numOfVars);
       tmp_num.SetLength(numOfVars);
       Rat_cost.SetLength(numOfVars);
-      Rat_cost2.SetLength(numOfVars);
 
       for (i = 0; i < numOfVars; i++){
       	 conv(tmp_num[i], High_opt->numerators()[i]);
@@ -286,20 +299,13 @@ ZZ binarySearch(listVector* matrix, listVector* ineq, vec_ZZ cost, int numOfVars
 	 conv(Rat_cost[i], cost[i]);
      		}
 
-      for (i = 0; i < numOfVars; i++){
-      	 conv(tmp_num[i], Low_opt->numerators()[i]);
-          conv(tmp_den[i], Low_opt->denominators()[i]);
-       	 Low_solution[i] = tmp_num[i]/tmp_den[i];
-     		}
-
       Rat_high = Rat_cost * High_solution;
-      Rat_low = (Rat_cost) * Low_solution;
       cerr << "The optimal value for LP relax.: " << Rat_high << endl << endl;
-      high = CeilToZZ(Rat_high);
+      high = ceilOfCost(cost, High_opt);
       Opt = OptimalCheckEqu(matrix, ineq, numOfVars, high, cost);
 
       high += 1;
-      low = CeilToZZ(Rat_low);
+      low = ceilOfCost(cost, Low_opt);
 
       if(high < low) {
         ZZ tmp_ZZ;
-- 
2.43.0


From b1f19d66ac2b4792185199d07972208cc7d7d514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:43 +0000
Subject: [PATCH 36/46] fix: refuse cut-off CDD files that crash cddlib

cddlib goes on with uninitialized sizes when a file ends before its size
line is complete, and GMP divides by zero on a number like "4/".
---
 code/latte/ReadPolyhedron.cpp      |  4 +--
 code/latte/latte_cddlib.cpp        | 39 ++++++++++++++++++++++++++++++
 code/latte/latte_cddlib.h          |  6 +++++
 code/latte/normalize/normalize.cpp |  2 +-
 4 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index 8bd480d..0efd0fb 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -339,7 +339,7 @@ read_cone_cdd_format(const string &filename) {
 	}
 	dd_MatrixPtr M;
 	dd_ErrorType err = dd_NoError;
-	M = dd_PolyFile2Matrix(in, &err);
+	M = read_cddlib_matrix(in, &err);
 	bool read_error = ferror(in);
 	fclose(in);
 	if (err != dd_NoError || read_error) {
@@ -582,7 +582,7 @@ static dd_MatrixPtr ReadCddStyleMatrix(const string &filename) {
 	}
 	dd_MatrixPtr M;
 	dd_ErrorType err = dd_NoError;
-	M = dd_PolyFile2Matrix(in, &err);
+	M = read_cddlib_matrix(in, &err);
 	bool read_error = ferror(in);
 	fclose(in);
 	if (err != dd_NoError || read_error) {
diff --git a/code/latte/latte_cddlib.cpp b/code/latte/latte_cddlib.cpp
index 0d18d66..cb62185 100644
--- a/code/latte/latte_cddlib.cpp
+++ b/code/latte/latte_cddlib.cpp
@@ -19,6 +19,8 @@
 */
 
 #include <cassert>
+#include <cstdio>
+#include <cstring>
 
 #include "latte_cddlib.h"
 #include "latte_gmp.h"
@@ -39,6 +41,43 @@ void check_cddlib_error(dd_ErrorType error, const char *proc)
   }    
 }
 
+/* The checks of read_cddlib_matrix. */
+static bool
+cddlib_file_is_well_formed(FILE *in)
+{
+  char word[1024];
+  do {
+    if (fscanf(in, "%1023s", word) != 1) return false;
+  } while (strncmp(word, "begin", 5) != 0);
+  long num_rows, num_columns;
+  if (fscanf(in, "%ld %ld %1023s", &num_rows, &num_columns, word) != 3
+      || num_rows < 0 || num_columns < 0)
+    return false;
+  for (long i = 0; i<num_rows; i++)
+    for (long j = 0; j<num_columns; j++) {
+      if (fscanf(in, "%1023s", word) != 1) return false;
+      const char *slash = strchr(word, '/');
+      if (slash != NULL && strlen(word) < sizeof(word) - 1
+	  && strspn(slash + 1, "+-0") == strlen(slash + 1))
+	return false;
+    }
+  return true;
+}
+
+dd_MatrixPtr
+read_cddlib_matrix(FILE *in, dd_ErrorType *error)
+{
+  long start = ftell(in);
+  if (start >= 0) {
+    bool well_formed = cddlib_file_is_well_formed(in);
+    if (fseek(in, start, SEEK_SET) != 0 || !well_formed) {
+      *error = dd_ImproperInputFormat;
+      return NULL;
+    }
+  }
+  return dd_PolyFile2Matrix(in, error);
+}
+
 dd_MatrixPtr
 rays_to_cddlib_matrix(listVector *rays, int numOfVars,
 		      int num_homogenization_vars,
diff --git a/code/latte/latte_cddlib.h b/code/latte/latte_cddlib.h
index fbf09d6..ab16929 100644
--- a/code/latte/latte_cddlib.h
+++ b/code/latte/latte_cddlib.h
@@ -49,6 +49,12 @@ extern init_cddlib_class init_cddlib;
 /* Check for and handle cddlib errors. */
 void check_cddlib_error(dd_ErrorType error, const char *proc);
 
+/* Read a CDD-style input file with dd_PolyFile2Matrix, but refuse a file that
+   ends before its size line or has a denominator of zero, which cddlib does
+   not check. */
+dd_MatrixPtr
+read_cddlib_matrix(FILE *in, dd_ErrorType *error);
+
 /** Conversion from LattE data structures to cddlib data structures. **/
 
 /* Create a matrix whose rows are the RAYS.
diff --git a/code/latte/normalize/normalize.cpp b/code/latte/normalize/normalize.cpp
index cab01f3..ef3a610 100644
--- a/code/latte/normalize/normalize.cpp
+++ b/code/latte/normalize/normalize.cpp
@@ -425,7 +425,7 @@ read_cone_cdd_format(const string &filename)
   }
   dd_MatrixPtr M;
   dd_ErrorType err=dd_NoError;
-  M = dd_PolyFile2Matrix(in, &err);
+  M = read_cddlib_matrix(in, &err);
   if (err!=dd_NoError) {
     cerr << "hilbert-from-rays: Parse error in CDD-style input file " << filename << endl;
     exit(1);
-- 
2.43.0


From 351cb2508db6155569a7d7bdb4f5e61f53b76a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:01 +0000
Subject: [PATCH 37/46] fix: check for emptiness only files in LattE format

CheckEmpty reads its file as a LattE-style one.  ehrhart, latte-maximize and
latte-minimize also called it on CDD-style files, where it used uninitialized
sizes; since it refuses what it cannot read, these programs refused every
CDD-style file.
---
 code/latte/ehrhart.cpp  | 2 +-
 code/latte/maximize.cpp | 2 +-
 code/latte/minimize.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/latte/ehrhart.cpp b/code/latte/ehrhart.cpp
index 400cfa9..0c49922 100644
--- a/code/latte/ehrhart.cpp
+++ b/code/latte/ehrhart.cpp
@@ -296,7 +296,7 @@ int main(int argc, char *argv[]) {
       CheckInputFileCDDRep4(argv[argc - 1]);
       }
   }else CheckInputFileVrep(fileName);
-    CheckEmpty(fileName);
+    if(cddstyle[0] == 'n') CheckEmpty(fileName);
   //vector cost;
   /* Read problem data. */
   if((cddstyle[0] == 'n') && (Vrepresentation[0] == 'n'))
diff --git a/code/latte/maximize.cpp b/code/latte/maximize.cpp
index bf1682e..2000f8c 100644
--- a/code/latte/maximize.cpp
+++ b/code/latte/maximize.cpp
@@ -238,7 +238,7 @@ int main(int argc, char *argv[]) {
       CheckInputFileCDDRep4(argv[argc - 1]);
       }
   }else CheckInputFileVrep(fileName);
-    CheckEmpty(fileName);
+    if(cddstyle[0] == 'n') CheckEmpty(fileName);
   //vector cost;
   /* Read problem data. */
   if((cddstyle[0] == 'n') && (Vrepresentation[0] == 'n')) CheckRed(fileName, equationsPresent, maximum, nonneg, interior, dilation, dilation_const); 
diff --git a/code/latte/minimize.cpp b/code/latte/minimize.cpp
index 858f9a6..ed80425 100644
--- a/code/latte/minimize.cpp
+++ b/code/latte/minimize.cpp
@@ -238,7 +238,7 @@ int main(int argc, char *argv[]) {
       CheckInputFileCDDRep4(argv[argc - 1]);
       }
   }else CheckInputFileVrep(fileName);
-    CheckEmpty(fileName);
+    if(cddstyle[0] == 'n') CheckEmpty(fileName);
   //vec_ZZ cost;
   /* Read problem data. */
 
-- 
2.43.0


From 87883e33faba7490c475671171258903f7369e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:50 +0000
Subject: [PATCH 38/46] fix: refuse incomplete input to ehrhart3

Too few values made the elimination read beyond the matrix (an off-by-one
in the test for a zero column).  Failed reading of the degree and failed
writing of the command files are reported.
---
 code/latte/ehrhart3.cpp                       | 20 ++++++++++++++++---
 .../interpolation/PolynomialInterpolation.cpp |  2 +-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/code/latte/ehrhart3.cpp b/code/latte/ehrhart3.cpp
index 184d1ac..828e146 100644
--- a/code/latte/ehrhart3.cpp
+++ b/code/latte/ehrhart3.cpp
@@ -27,6 +27,16 @@ EhrhartPolyRootFinder::EhrhartPolyRootFinder(vector<mpq_class> p): poly(p)
 	mapleCommands  = "ehrhart3.mapleCommands.txt";
 }
 
+static void close_file(ofstream &file)
+{
+	file.close();
+	if (!file)
+	{
+		cerr << "ehrhart3: writing the commands failed." << endl;
+		exit(1);
+	}
+}
+
 void EhrhartPolyRootFinder::saveMatlab()
 {
 	ofstream file;
@@ -49,7 +59,7 @@ void EhrhartPolyRootFinder::saveMatlab()
 	file << "fclose(fptr);\n";
 	file << "exit\n";
 	
-	file.close();
+	close_file(file);
 }//saveMatlab()
 
 
@@ -67,7 +77,7 @@ void EhrhartPolyRootFinder::saveMaple()
 	file << "writeto(\"ehrhart.mapleroots.txt\"):\n";
 	file << "for x in theRoots do printf(\"%Zf = > %Zf\\n\", x, subs(t = x, p)): od:\n";
 	
-	file.close();
+	close_file(file);
 }
 
 
@@ -81,7 +91,11 @@ int main(int argc, char *argv[]){
 	unsigned int deg, count = 0;
 	vector<mpq_class> vec;
 	mpq_class i = 0, temp = 0;
-	cin >> deg;
+	if (!(cin >> deg))
+	{
+		cerr << "ehrhart3: expected the degree and the values of a polynomial." << endl;
+		exit(1);
+	}
 	//cout << deg << endl;
 	PolynomialInterpolation p(deg);
 	while(cin >> temp){
diff --git a/code/latte/interpolation/PolynomialInterpolation.cpp b/code/latte/interpolation/PolynomialInterpolation.cpp
index 2bcf15f..8d11474 100644
--- a/code/latte/interpolation/PolynomialInterpolation.cpp
+++ b/code/latte/interpolation/PolynomialInterpolation.cpp
@@ -118,7 +118,7 @@ void PolynomialInterpolation::GE()
             currentRow = currentRow + 1;
         }
         
-        if(  currentRow > rowSize)
+        if(  currentRow >= rowSize)
 		{
 			currentColumn++;
             continue; //found column of zeros
-- 
2.43.0


From 5a96eead5f55f84399133158ea686c1fb91248a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:09 +0000
Subject: [PATCH 39/46] fix: relaxed optimum with negative coordinates and
 equations

ProjectingUpRR set every negative (and every small positive) coordinate
of the vertex to zero: latte-maximize and latte-minimize printed a wrong
vertex and a wrong optimum of the LP relaxation.
---
 code/latte/preprocess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/latte/preprocess.cpp b/code/latte/preprocess.cpp
index 5a6ed18..85dd36a 100644
--- a/code/latte/preprocess.cpp
+++ b/code/latte/preprocess.cpp
@@ -1022,7 +1022,7 @@ vec_RR ProjectingUpRR(mat_RR ProjU, vec_RR cost, int numOfVars) {
 				answer[i] += cost[j - 1] * ProjU[i][j];
 
 			}
-			if (answer[i] < power2_RR(-10))
+			if (abs(answer[i]) < power2_RR(-100))
 				answer[i] = 0;
 		}
 	}// cerr << answer << endl;
-- 
2.43.0


From f50ba940ec50e92dd08a0aa988827ece975baddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:40 +0000
Subject: [PATCH 40/46] fix: a single point given by equations was counted as 0
 points

When all inequalities are trivial on the affine lattice of the equations,
preprocessProblem() announced 0 lattice points; there is one if no
variable is left, and otherwise the polyhedron is not bounded.
---
 code/latte/preprocess.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/code/latte/preprocess.cpp b/code/latte/preprocess.cpp
index 85dd36a..9db021a 100644
--- a/code/latte/preprocess.cpp
+++ b/code/latte/preprocess.cpp
@@ -619,15 +619,20 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 	/*    printListVector(inequalities,(*numOfVars)+1); */
 	cerr << "New inequalities:\n";
 	printListVectorToFile(cerr, newInequalities, newNumOfVars + 1);
-	checkListVector(newInequalities, newNumOfVars);
 	if (newInequalities == NULL) {
-
-		cerr << "\n\n****  Total number of lattice points is: 0 ****\n" << endl;
+		/* All inequalities hold on the whole affine lattice that the
+		   equations describe. */
+		if (newNumOfVars > 1) {
+			cerr << "The polytope is not bounded." << endl;
+			exit(1);
+		}
+		cerr << "The number of lattice points is 1." << endl;
 		ofstream out("numOfLatticePoints");
-		out << 0 << endl;
+		out << 1 << endl;
 		close_with_error_check(out, "numOfLatticePoints");
 		exit(0);
 	}
+	checkListVector(newInequalities, newNumOfVars);
 	(*numOfVars) = newNumOfVars - 1;
 	return (newInequalities);
 }
-- 
2.43.0


From 59dc441b05e577a8e7655bba9a5e010a0782897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:02 +0000
Subject: [PATCH 41/46] fix: refuse a cut-off count in the binary search

---
 code/latte/binarySearchIP.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/latte/binarySearchIP.cpp b/code/latte/binarySearchIP.cpp
index 5fe7c8d..5207519 100644
--- a/code/latte/binarySearchIP.cpp
+++ b/code/latte/binarySearchIP.cpp
@@ -172,7 +172,8 @@ static ZZ countLatticePoints()
   int status = system((shell_quote(relocated_pathname(string(INSTALLPREFIX) + "/bin/count")) + " latte_BS > latte_BS.out").c_str());
 
   ifstream in("numOfLatticePoints");
-  if (!(in >> NumOfLatticePoints) || (status != 0 && !IsZero(NumOfLatticePoints))) {
+  /* Without the end of the line, the number has been cut off. */
+  if (!(in >> NumOfLatticePoints) || in.get() != '\n' || (status != 0 && !IsZero(NumOfLatticePoints))) {
     cerr << "Counting the lattice points of latte_BS failed with status " << status << "." << endl;
     exit(1);
   }
-- 
2.43.0


From 60d971bcb8653124bae2311e6023221d01a7c511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:30 +0000
Subject: [PATCH 42/46] fix: cached triangulations of different cones overwrote
 each other

With trisave and triload, all cones used the cache file of cone 0, so that
a later run subdivided every cone like the last one and gave a wrong answer.
---
 code/latte/barvinok/dec.cpp                | 1 +
 code/latte/valuation/PolytopeValuation.cpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/code/latte/barvinok/dec.cpp b/code/latte/barvinok/dec.cpp
index b56f85a..8a7026c 100644
--- a/code/latte/barvinok/dec.cpp
+++ b/code/latte/barvinok/dec.cpp
@@ -145,6 +145,7 @@ barvinokDecomposition_List(listCone *cones,
       int index;
       for (cone = cones, index = 0; cone != NULL; cone = cone->rest, index++) {
 	int status;
+	Parameters.Cone_Index = index;
 	status = barvinokDecomposition_Single(cone, &Parameters);
 	if (status < 0) {
 	  static NotGenericException not_generic;
diff --git a/code/latte/valuation/PolytopeValuation.cpp b/code/latte/valuation/PolytopeValuation.cpp
index 2ff9d01..e325520 100644
--- a/code/latte/valuation/PolytopeValuation.cpp
+++ b/code/latte/valuation/PolytopeValuation.cpp
@@ -1427,6 +1427,7 @@ void PolytopeValuation::triangulatePolytopeVertexRayCone()
 	listCone * currentCone = vertexRayCones;
 	int numVertexCones = lengthListCone(vertexRayCones);
 
+	parameters.Cone_Index = 0;
 	while ( currentCone)
 	{
 
@@ -1434,6 +1435,7 @@ void PolytopeValuation::triangulatePolytopeVertexRayCone()
 
 		cerr << numVertexCones-- << " cone triangulations left.\n";
 		newTriangulation = triangulateCone(currentCone, numOfVars, &parameters);
+		parameters.Cone_Index++;
 
 		triangulatedPoly = appendListCones(newTriangulation, triangulatedPoly);
 
-- 
2.43.0


From 7faa1f6e14683037decd0aedab1cbe4083fde575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:10 +0000
Subject: [PATCH 43/46] fix: count with the option `file' ended in a crash or a
 wrong count

Residue frees the cones it is given; the polyhedron freed them again.  With
--irrational-all-primal, the cones were dualized although it is the primal
cones that are to be decomposed.
---
 code/latte/count.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/code/latte/count.cpp b/code/latte/count.cpp
index 09c6c14..362fd96 100644
--- a/code/latte/count.cpp
+++ b/code/latte/count.cpp
@@ -499,7 +499,10 @@ CountAnswerContainer mainCountDriver(int argc, char *argv[])
 
 			listCone *cone;
 			for (cone = Poly->cones; cone != NULL; cone = cone->rest)
+			{
 				barvinokDecomposition_Single(cone, write_params);
+				write_params->Cone_Index++;
+			}
 			file_consumer->Finish();
 			cerr << "Multivariate generating function written to `"<< rat_filename.c_str() << "'" << endl;
 			countAnswerContainer.multivariateGenFunctionFileName = rat_filename;
@@ -526,8 +529,9 @@ CountAnswerContainer mainCountDriver(int argc, char *argv[])
 					//I'm not yet sure how this computation is used.
 					//I think --ehrhart-series uses this.
 
+					// The cones are already those to be decomposed.
 					listCone *decomposed_cones = decomposeCones(Poly->cones,
-							not Poly->dualized, *params);
+							false, *params);
 					freeListCone(Poly->cones);
 					Poly->cones = decomposed_cones;
 					// 	cerr << "Decomposed cones: " << endl;
@@ -669,6 +673,8 @@ CountAnswerContainer mainCountDriver(int argc, char *argv[])
 			{
 				cerr << "Starting final computation.\n";
 				ZZ number = Residue(Poly->cones, Poly->numOfVars);
+				// Residue consumes cones.
+				Poly->cones = NULL;
 				params->deliver_number_of_lattice_points(number);
 				countAnswerContainer.numLaticePoints = number;
 			}
-- 
2.43.0


From 03fbdf41a5117065f6d6ea0e288fc9c9aa4de285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:29 +0000
Subject: [PATCH 44/46] fix: writing the generating function in Maple form was
 not checked

---
 code/latte/count.cpp             | 2 ++
 code/latte/genFunction/maple.cpp | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/latte/count.cpp b/code/latte/count.cpp
index 362fd96..41b5016 100644
--- a/code/latte/count.cpp
+++ b/code/latte/count.cpp
@@ -357,6 +357,8 @@ CountAnswerContainer mainCountDriver(int argc, char *argv[])
 	 do not leave the one of an earlier run in its place. */
 	if (params->substitution == BarvinokParameters::NoSubstitution)
 		remove_if_exists(read_polyhedron_data.filename + ".rat");
+	if (read_polyhedron_data.Memory_Save[0] == 'n')
+		remove_if_exists(read_polyhedron_data.filename + ".maple");
 
 	Polyhedron *Poly = read_polyhedron_data.read_polyhedron(params);
 
diff --git a/code/latte/genFunction/maple.cpp b/code/latte/genFunction/maple.cpp
index 93cee11..3ad596c 100644
--- a/code/latte/genFunction/maple.cpp
+++ b/code/latte/genFunction/maple.cpp
@@ -106,7 +106,7 @@ void createGeneratingFunctionAsMapleInput(const char *fileName, listCone* cones,
   writeTermOfGeneratingFunctionToFile(out,tmp,numOfVars);
   out << ";\n";
 
-  out.close();
+  close_with_error_check(out, mapleInFileName);
   return;
 }
 /* ----------------------------------------------------------------- */
-- 
2.43.0


From 051f01a5f05eaa5ac011a37016ce17c867ebdd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:40 +0000
Subject: [PATCH 45/46] fix: latte-maximize and latte-minimize dilated by the
 square of the dilation factor

CheckRed already dilates the polytope, and preprocessing dilated it again.
With a CDD input file, on the other hand, the binary search (bbs) did not dilate at all.
---
 code/latte/maximize.cpp | 7 ++++++-
 code/latte/minimize.cpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/code/latte/maximize.cpp b/code/latte/maximize.cpp
index 2000f8c..1e43b61 100644
--- a/code/latte/maximize.cpp
+++ b/code/latte/maximize.cpp
@@ -241,7 +241,10 @@ int main(int argc, char *argv[]) {
     if(cddstyle[0] == 'n') CheckEmpty(fileName);
   //vector cost;
   /* Read problem data. */
-  if((cddstyle[0] == 'n') && (Vrepresentation[0] == 'n')) CheckRed(fileName, equationsPresent, maximum, nonneg, interior, dilation, dilation_const); 
+  if((cddstyle[0] == 'n') && (Vrepresentation[0] == 'n')) {
+    CheckRed(fileName, equationsPresent, maximum, nonneg, interior, dilation, dilation_const);
+    dilation_const = 1; /* CheckRed has dilated the polytope. */
+  }
 
   if((cddstyle[0] == 'n') && (grobner[0] == 'n'))
     readLatteProblem(fileName,&equations,&inequalities,equationsPresent,
@@ -298,6 +301,8 @@ int main(int argc, char *argv[]) {
   /* Binary search IP*/
 
   if(binary[0] == 'y'){
+    dilateListVector(equations, numOfVars, dilation_const);
+    dilateListVector(inequalities, numOfVars, dilation_const);
     cerr << "The number of optimal solutions: " << binarySearch(equations, inequalities,cost, numOfVars, minimize) << endl;
     cerr << "Time: " << GetTime() << endl;
     exit(0);
diff --git a/code/latte/minimize.cpp b/code/latte/minimize.cpp
index ed80425..dcf7e9d 100644
--- a/code/latte/minimize.cpp
+++ b/code/latte/minimize.cpp
@@ -242,7 +242,10 @@ int main(int argc, char *argv[]) {
   //vec_ZZ cost;
   /* Read problem data. */
 
-  if((cddstyle[0] == 'n') && (Vrepresentation[0] == 'n')) CheckRed(fileName, equationsPresent, maximum, nonneg, interior, dilation, dilation_const); 
+  if((cddstyle[0] == 'n') && (Vrepresentation[0] == 'n')) {
+    CheckRed(fileName, equationsPresent, maximum, nonneg, interior, dilation, dilation_const);
+    dilation_const = 1; /* CheckRed has dilated the polytope. */
+  }
 
   if((cddstyle[0] == 'n') && (grobner[0] == 'n'))
     readLatteProblem(fileName,&equations,&inequalities,equationsPresent,
@@ -299,6 +302,8 @@ int main(int argc, char *argv[]) {
   /* Binary search IP*/
 
   if(binary[0] == 'y'){
+    dilateListVector(equations, numOfVars, dilation_const);
+    dilateListVector(inequalities, numOfVars, dilation_const);
     cerr << "The number of optimal solutions: " << binarySearch(equations, inequalities,cost, numOfVars, minimize) << endl;
     cerr << "Time: " << GetTime() << endl;
     exit(0);
-- 
2.43.0


From 8eafb9a17b95d353a68e23e970d24e6e90aa5b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:14 +0000
Subject: [PATCH 46/46] fix: the keyword + wrote past the end of the
 inequalities it adds

---
 code/latte/ReadLatteStyle.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/latte/ReadLatteStyle.cpp b/code/latte/ReadLatteStyle.cpp
index 9a069e3..07e1cca 100644
--- a/code/latte/ReadLatteStyle.cpp
+++ b/code/latte/ReadLatteStyle.cpp
@@ -161,9 +161,10 @@ dd_MatrixPtr ReadLatteStyleMatrix(istream &f, bool vrep, bool homogenize,
 		}
 	}
 	if (nonnegativity) {
-		vector<int> nonnegatives(numOfVars);
+		/* The first column is the right-hand side. */
+		vector<int> nonnegatives(numOfVars - 1);
 		int k;
-		for (k = 0; k < numOfVars; k++)
+		for (k = 0; k < numOfVars - 1; k++)
 			nonnegatives[k] = k + 1; /* 1-based indices */
 		dd_MatrixPtr new_matrix = add_nonnegativity(matrix, nonnegatives,
 				num_homog);
-- 
2.43.0

