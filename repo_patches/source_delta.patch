From cd01513cccae85556697197d07e9a9f3badeee29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 01/28] fix: learnClause returns the clause it learned instead
 of falling off its end

---
 bitvec/Formula.cc | 1 +
 src/Formula.cc    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 7d23ad9..24238de 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -369,6 +369,7 @@ Clause* Formula::learnClause ( Clause * clause ) {
 			VARLIST[i] -> VSIDS_SCORE[j] /=2;
 		}
 	}
+	return clause;
 }
 
 // Corresponding functions for watched literals version of the algorithm:
diff --git a/src/Formula.cc b/src/Formula.cc
index 289c321..d3edfeb 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -832,6 +832,7 @@ Clause* Formula::learnClause ( Clause * clause ) {
 			}
 		}
 	}
+	return clause;
 }
 
 int Formula::backtrackLevel ( Clause * learnedClause ) {
-- 
2.43.0


From e183871f29f6eb1a8b94a4b76346524c3bdb2442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 02/28] fix: bitvec watchedUndoTheory undoes to the level it is
 given (a restart undoes to level 0)

---
 bitvec/Formula.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 24238de..fe34928 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -412,7 +412,7 @@ void Formula::watchedUndoTheory ( int level ) { // FIXME  fixed ?
 
 	for ( unsigned int  i = 1; i < VARLIST.size(); i++ ) {
 
-		while (!VARLIST[i]->graphNodes.empty() && VARLIST[i]->graphNodes.back().level>LEVEL) {
+		while (!VARLIST[i]->graphNodes.empty() && VARLIST[i]->graphNodes.back().level>level) {
 
 			VARLIST[i]->CURRENT_DOMAIN = VARLIST[i]->CURRENT_DOMAIN | VARLIST[i]->graphNodes.back().values;
 
-- 
2.43.0


From 38c435a123cf41b45a8a42de1904032e5f946363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:52 +0000
Subject: [PATCH 03/28] fix: bitvec does not read the second watch of a
 single-literal clause

---
 bitvec/Formula.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index fe34928..f28e2fe 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -389,7 +389,7 @@ inline void Formula::watchedUpdateVar ( int var ) {
 		next = current->next;
 
 		if (sat(CLAUSELIST[current->c_num]->WATCHED[0])!=1) {
-			if (sat(CLAUSELIST[current->c_num]->WATCHED[1])==1) {
+			if (CLAUSELIST[current->c_num]->ATOM_LIST.size() > 1 && sat(CLAUSELIST[current->c_num]->WATCHED[1])==1) {
 				Literal lit = CLAUSELIST[current->c_num]->WATCHED[1];
 				CLAUSELIST[current->c_num]->WATCHED[1] = CLAUSELIST[current->c_num]->WATCHED[0];
 				CLAUSELIST[current->c_num]->WATCHED[0] = lit;
@@ -571,7 +571,7 @@ void Formula::SwapPointer ( VARRECORD* current ) {
 
 	bool unitClause = true;
 
-	if ( sat ( watched2 )  == 2 ) {
+	if ( clause->ATOM_LIST.size() > 1 && sat ( watched2 )  == 2 ) {
 
 		// if watched2 unassigned, watched1 falsified
 
-- 
2.43.0


From fad2142ebda332cad863e7c1de025ecabc37b1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 04/28] fix: keep a literal repeated in a clause once, so that
 the two watches differ

---
 src/Formula.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Formula.cc b/src/Formula.cc
index d3edfeb..d2de0a1 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -140,7 +140,9 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 					if(ch == '!')
 						sscanf(word_buffer, "%d %c %c %d", &var, &ch, &ch1, &val);
 					//checking if variable = 0 i.e end of line
-					if(var != 0)
+					//a literal repeated in the clause is kept once: the two
+					//watched literals of a clause have to be different
+					if(var != 0 && !hasAtom(temp_clause, Literal(var, ch, val)))
 					{
 						//add it to clause_list's atom_list
 						temp_atom = Literal(var, ch, val);
-- 
2.43.0


From 425af0ad6399fab89c331b1a3871677fe2b97e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 05/28] fix: an empty clause is a conflict at level 0 and a
 blank line is not a clause

---
 bitvec/Formula.cc | 13 +++++++++++++
 src/Formula.cc    | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index f28e2fe..ad855f4 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -120,6 +120,12 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		//else its clause lines
 		else
 		{
+			//a line without a word is not a clause
+			if(strspn(line_buffer, " \t\r") == strlen(line_buffer))
+			{
+				delete temp_clause;
+				continue;
+			}
 			char * lp = line_buffer;
 			do
 			{
@@ -167,6 +173,13 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 			}while(*lp);
 			CLAUSELIST.push_back(temp_clause);
 
+			//the empty clause is a conflict before any decision
+			if (temp_clause->ATOM_LIST.empty()) {
+				CONFLICT = true;
+				CONFLICTINGCLAUSE = clause_num++;
+				continue;
+			}
+
 			for (int i=0;i<temp_clause->ATOM_LIST.size();i++) {
 				Literal lit = temp_clause->ATOM_LIST[i];
 				for (int j=0;j<VARLIST[lit.VAR]->DOMAINSIZE;j++) {
diff --git a/src/Formula.cc b/src/Formula.cc
index d2de0a1..5f44721 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -118,6 +118,12 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		//else its clause lines
 		else
 		{
+			//a line without a word is not a clause
+			if(strspn(line_buffer, " \t\r") == strlen(line_buffer))
+			{
+				delete temp_clause;
+				continue;
+			}
 			char * lp = line_buffer;
 			do
 			{
@@ -182,6 +188,13 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 			}while(*lp);
 			CLAUSELIST.push_back(temp_clause);
 
+			//the empty clause is a conflict before any decision
+			if (temp_clause->ATOM_LIST.empty()) {
+				CONFLICT = true;
+				CONFLICTINGCLAUSE = clause_num++;
+				continue;
+			}
+
 			if (temp_clause->ATOM_LIST.size() == 1) {
 				UNITLIST.push_back(clause_num);
 			}
-- 
2.43.0


From 9a086aa737babefc5d26875f8add0ed62d37337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 06/28] fix: read input lines of any length instead of dropping
 the file after a long one

---
 bitvec/Formula.cc      | 10 +++++++---
 src/Boolean2Finite.cc  | 10 +++++++---
 src/Formula.cc         | 10 +++++++---
 src/LinearEncode.cc    | 10 +++++++---
 src/QuadraticEncode.cc | 10 +++++++---
 5 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index ad855f4..68ed87a 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -61,8 +61,8 @@ Formula::Formula ( CommandLine * cline ) {
 void Formula::BuildFormula ( CommandLine* cline ) {
 	//local variables
 	ifstream infile;
-	char line_buffer[3000];
-	char word_buffer[3000];
+	string line;
+	string word;
 	int clause_num = 0;
 	int atom_num = 0;
 	int var, val;
@@ -91,8 +91,12 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 	//now reading each line from the infile and if needed to convert
 	//then converting it and writing to outfile or just writing directly
-	while(infile.getline(line_buffer, 3000))
+	while(getline(infile, line))
 	{
+		//lines can have any length, and so can words
+		char * line_buffer = &line[0];
+		word.resize(line.size() + 1);
+		char * word_buffer = &word[0];
 		temp_clause = new Clause(cline->CLAUSE_SIZE);
 		//if line is comment - just write
 		if(line_buffer[0] == 'c')
diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index 89aef7b..e8fa91e 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -16,8 +16,8 @@ void Boolean2Finite(CommandLine * cline)
   //local variables
   ifstream infile;
   ofstream outfile;
-  char line_buffer[MAX_LINE];
-  char word_buffer[MAX_LINE];
+  string line;
+  string word;
   int line_num = 0;
   int variable = 0;
   set<int> variables;
@@ -47,8 +47,12 @@ void Boolean2Finite(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(infile.getline(line_buffer, MAX_LINE))
+  while(getline(infile, line))
     {
+      //lines can have any length, and so can words
+      char * line_buffer = &line[0];
+      word.resize(line.size() + 1);
+      char * word_buffer = &word[0];
       ++line_num;
       //if line is comment - just write
       if(line_buffer[0] == 'c')
diff --git a/src/Formula.cc b/src/Formula.cc
index 5f44721..0ed2202 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -63,8 +63,8 @@ Formula::Formula ( CommandLine * cline ) {
 void Formula::BuildFormula ( CommandLine* cline ) {
 	//local variables
 	ifstream infile;
-	char line_buffer[3000];
-	char word_buffer[3000];
+	string line;
+	string word;
 	int clause_num = 0;
 	int atom_num = 0;
 	int var, val;
@@ -93,8 +93,12 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 	//now reading each line from the infile and if needed to convert
 	//then converting it and writing to outfile or just writing directly
-	while(infile.getline(line_buffer, 3000))
+	while(getline(infile, line))
 	{
+		//lines can have any length, and so can words
+		char * line_buffer = &line[0];
+		word.resize(line.size() + 1);
+		char * word_buffer = &word[0];
 		temp_clause = new Clause(cline->CLAUSE_SIZE);
 		//if line is comment - just write
 		if(line_buffer[0] == 'c')
diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index cede5b9..f6f4fca 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -19,8 +19,8 @@ void LinearEncode(CommandLine * cline)
   //local variables
   ifstream infile;
   ofstream outfile;
-  char line_buffer[3000];
-  char word_buffer[3000];
+  string line;
+  string word;
   int num_clause = 0;
   int num_var = 0;
   int new_num_clause = 0;
@@ -57,8 +57,12 @@ void LinearEncode(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(infile.getline(line_buffer, 3000))
+  while(getline(infile, line))
     {
+      //lines can have any length, and so can words
+      char * line_buffer = &line[0];
+      word.resize(line.size() + 1);
+      char * word_buffer = &word[0];
       //if line is comment - just write
       if(line_buffer[0] == 'c')
 	{
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 27e539c..b828932 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -27,8 +27,8 @@ void QuadraticEncode(CommandLine * cline)
   //local variables
   ifstream infile;
   ofstream outfile;
-  char line_buffer[3000];
-  char word_buffer[3000];
+  string line;
+  string word;
   int num_clause = 0;
   int num_var = 0;
   int var, val;
@@ -63,8 +63,12 @@ void QuadraticEncode(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(infile.getline(line_buffer, 3000))
+  while(getline(infile, line))
     {
+      //lines can have any length, and so can words
+      char * line_buffer = &line[0];
+      word.resize(line.size() + 1);
+      char * word_buffer = &word[0];
       //if line is comment - just write
       if(line_buffer[0] == 'c')
 	{
-- 
2.43.0


From 03b77e95eda801727a485f7f7ee1bc6b37234b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 07/28] fix: a variable with one value takes it, so that
 excluding it is a conflict

---
 bitvec/Formula.cc |  5 ++++-
 src/Formula.cc    | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 68ed87a..6cd0b19 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -163,8 +163,11 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 						}
 
 						//add it to clause_list's atom_list
+						//a literal without values (the only value of its
+						//variable excluded) is false
 						temp_atom = Literal(var, vals);
-						temp_clause->addAtom(temp_atom);
+						if (vals.any())
+							temp_clause->addAtom(temp_atom);
 
 						//increment the index representing value so that
 						//we can keep track of number of occurrences of each
diff --git a/src/Formula.cc b/src/Formula.cc
index 0ed2202..c196227 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -227,6 +227,24 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		}
 	}
 
+	//a variable with a single value takes it: a unit clause says so, as the
+	//search infers a value only from the exclusion of the other ones
+	for (unsigned int i = 1; i < VARLIST.size(); i++)
+	{
+		if (VARLIST[i]->DOMAINSIZE != 1)
+			continue;
+		temp_clause = new Clause(1);
+		temp_clause->addAtom(Literal(i, '=', 0));
+		CLAUSELIST.push_back(temp_clause);
+		UNITLIST.push_back(clause_num);
+		if (WATCH) {
+			temp_clause->WATCHED[0] = temp_clause->ATOM_LIST[0];
+			VARLIST[i]->addRecord(clause_num, 0, true);
+		} else
+			VARLIST[i]->ATOMRECPOS[0].push_back(clause_num);
+		++clause_num;
+	}
+
 	//closing file
 	infile.close();
 	TIME_E = GetTime();
-- 
2.43.0


From 87b4019d03a3c59b1072b3c50ed5ac47a3f9a037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 08/28] fix: reject malformed domain lines and literals, and
 end a clause at its 0

---
 bitvec/Formula.cc | 28 +++++++++++++++++++++++-----
 src/Formula.cc    | 24 +++++++++++++++++++++++-
 2 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 6cd0b19..7401dac 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -113,13 +113,17 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		//else if line is d var# domsize
 		else if(line_buffer[0] == 'd')
 		{
-			sscanf(line_buffer, "d %d %d", &var, &val);
+			//variables are found by their position: they are declared in
+			//order, each with at least one value
+			if(sscanf(line_buffer, "d %d %d", &var, &val) != 2
+					|| var != (int) VARLIST.size() || val < 1 || val > MAX_DOMAIN)
+			{
+				cout<<"**** ERROR ****"<<endl;
+				cout<<"Bad domain line : "<<line_buffer<<endl;
+				exit(1);
+			}
 			temp_var = new Variable(var, val);
 			VARLIST.push_back(temp_var);
-
-			if (val>MAX_DOMAIN) {
-				cout << "Error: domain exceeds MAX_DOMAIN"<<endl;
-			}
 		}
 		//else its clause lines
 		else
@@ -148,9 +152,23 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 				//converting into int and writing to file
 				if(strlen(word_buffer) != 0)
 				{
+					var = val = -1;
+					ch = ' ';
 					sscanf(word_buffer, "%d %c %d", &var, &ch, &val);
 					if(ch == '!')
 						sscanf(word_buffer, "%d %c %c %d", &var, &ch, &ch1, &val);
+					//0 ends the clause: the rest of the line is no part of it
+					if(var == 0)
+						break;
+					//a literal names a declared variable and one of its values
+					if(var < 0 || var >= (int) VARLIST.size()
+							|| (ch != '=' && ch != '!')
+							|| val < 0 || val >= VARLIST[var]->DOMAINSIZE)
+					{
+						cout<<"**** ERROR ****"<<endl;
+						cout<<"Bad literal : "<<word_buffer<<endl;
+						exit(1);
+					}
 					//checking if variable = 0 i.e end of line
 					if(var != 0)
 					{
diff --git a/src/Formula.cc b/src/Formula.cc
index c196227..a714eec 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -115,7 +115,15 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		//else if line is d var# domsize
 		else if(line_buffer[0] == 'd')
 		{
-			sscanf(line_buffer, "d %d %d", &var, &val);
+			//variables are found by their position: they are declared in
+			//order, each with at least one value
+			if(sscanf(line_buffer, "d %d %d", &var, &val) != 2
+					|| var != (int) VARLIST.size() || val < 1)
+			{
+				cout<<"**** ERROR ****"<<endl;
+				cout<<"Bad domain line : "<<line_buffer<<endl;
+				exit(1);
+			}
 			temp_var = new Variable(var, val);
 			VARLIST.push_back(temp_var);
 		}
@@ -146,9 +154,23 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 				//converting into int and writing to file
 				if(strlen(word_buffer) != 0)
 				{
+					var = val = -1;
+					ch = ' ';
 					sscanf(word_buffer, "%d %c %d", &var, &ch, &val);
 					if(ch == '!')
 						sscanf(word_buffer, "%d %c %c %d", &var, &ch, &ch1, &val);
+					//0 ends the clause: the rest of the line is no part of it
+					if(var == 0)
+						break;
+					//a literal names a declared variable and one of its values
+					if(var < 0 || var >= (int) VARLIST.size()
+							|| (ch != '=' && ch != '!')
+							|| val < 0 || val >= VARLIST[var]->DOMAINSIZE)
+					{
+						cout<<"**** ERROR ****"<<endl;
+						cout<<"Bad literal : "<<word_buffer<<endl;
+						exit(1);
+					}
 					//checking if variable = 0 i.e end of line
 					//a literal repeated in the clause is kept once: the two
 					//watched literals of a clause have to be different
-- 
2.43.0


From 4242e6e093a7c64415100bda8e5c4cc220a2a14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 09/28] fix: linear encoding header counted variables and
 clauses never written for two-valued variables

---
 src/LinearEncode.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index f6f4fca..824d90f 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -86,9 +86,13 @@ void LinearEncode(CommandLine * cline)
       else if(line_buffer[0] == 'd')
 	{
 	  temp = sscanf(line_buffer, "d %d %d", &var, &val);
-	  count++;
-	  new_num_var += 2*val-1;
-	  new_num_clause += 4*(val-2)+3+1;
+	  //a two-valued variable is one boolean variable without clauses
+	  if(val > 2)
+	    {
+	      count++;
+	      new_num_var += 2*val-1;
+	      new_num_clause += 4*(val-2)+3+1;
+	    }
 	  domain[var] = val;
 	}
       //else its variables
-- 
2.43.0


From 0dfb91e6a01a71d8d22ed95ddd61f1c887f57785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 10/28] fix: linear encoding of x!=v over a two-valued x was
 that of x=v

---
 src/LinearEncode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 824d90f..2b761f7 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -185,7 +185,7 @@ void LinearEncode(CommandLine * cline)
 			}
 		      else
 			{
-			  if(val == 1)
+			  if((val == 1) == (ch != '!'))
 			    {
 			      var = index[var];
 			      outfile<<var<<" ";
-- 
2.43.0


From 9a6112d455b429094cf3064f077497da15f04899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 11/28] fix: quadratic encoding header overflowed (or divided
 by zero) for domains above 12 values

---
 src/QuadraticEncode.cc | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index b828932..39bb0aa 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -9,16 +9,6 @@
 #include <cstring>
 using namespace std;
 //**********************************************************************//
-//Factorial
-//Computes the factorial of a number
-inline int Fact(int n)
-{
-  int temp = 1;
-  for(int x=1; x<n+1; x++)
-    temp *= x;
-  return temp;
-}
-
 //QuadraticEncode
 //This function converts a finite domain file into a boolean domain
 //using the Quadratic Encoding technique
@@ -89,7 +79,7 @@ void QuadraticEncode(CommandLine * cline)
 	  temp_var = new Variable(var, val);
 	  VAR_LIST.push_back(temp_var);
 	  num_var += val;
-	  num_clause += (Fact(val)/(Fact(val-2)*Fact(2)));
+	  num_clause += val*(val-1)/2;
 	  num_clause += 1;
 	}
       //else its variables
-- 
2.43.0


From 07fda4fae6f8ef7fd05b3f8d4a8545519e1fd761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 12/28] fix: quadratic encoding ends its domain clauses with 0
 like every other clause

---
 src/QuadraticEncode.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 39bb0aa..13d3c3b 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -96,12 +96,12 @@ void QuadraticEncode(CommandLine * cline)
 		  int var_domain = VAR_LIST[x]->DOMAINSIZE;
 		  for(int y=0; y<var_domain; y++)
 		    outfile<<var_name<<"="<<y<<" ";
-		  outfile<<"\n";
+		  outfile<<"0\n";
 		  for(int p=0; p<var_domain; p++)
 		    {
 		      for(int q=p+1; q<var_domain; q++)
 			{
-			  outfile<<"-"<<var_name<<"="<<p<<" "<<"-"<<var_name<<"="<<q<<""<<endl;
+			  outfile<<"-"<<var_name<<"="<<p<<" "<<"-"<<var_name<<"="<<q<<" 0"<<endl;
 			}
 		    }
 		}
-- 
2.43.0


From c49527dd94fa693c3fd22650897850ef99142ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 13/28] fix: encoders read the documented "p mvcnf" header
 (they left its numbers uninitialised)

---
 src/LinearEncode.cc    | 2 +-
 src/QuadraticEncode.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 2b761f7..938e15b 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -73,7 +73,7 @@ void LinearEncode(CommandLine * cline)
       else if(line_buffer[0] == 'p')
 	{
 	  //do nothing
-	  temp = sscanf(line_buffer, "p cnf %d %d", &var, &val);
+	  temp = sscanf(line_buffer, "p %*s %d %d", &var, &val);
 	  num_var = var;
 	  num_clause = val;
 	  domain = new int[var+1];
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 13d3c3b..f6eb613 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -69,7 +69,7 @@ void QuadraticEncode(CommandLine * cline)
       else if(line_buffer[0] == 'p')
 	{
 	  //do nothing
-	  temp = sscanf(line_buffer, "p cnf %d %d", &var, &val);
+	  temp = sscanf(line_buffer, "p %*s %d %d", &var, &val);
 	  num_clause += val;
 	}
       //else if line is d var# domsize
-- 
2.43.0


From e7e92b3edfac310dc718ba3349e07499f4eb3667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 14/28] fix: encoders end a clause at its 0, not at the end of
 the line

---
 src/LinearEncode.cc    | 5 ++++-
 src/QuadraticEncode.cc | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 938e15b..1219dfe 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -173,7 +173,10 @@ void LinearEncode(CommandLine * cline)
 		  if(ch == '!')
 		    temp = sscanf(word_buffer, "%d %c %c %d", &var, &ch, &ch1, &val);
 		  //checking if variable = 0 i.e end of line
-		  if(var != 0)
+		  //the rest of the line is no part of the clause
+		  if(var == 0)
+		    break;
+		  else
 		    {
 		      if(domain[var] > 2)
 			{
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index f6eb613..98d42cf 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -125,7 +125,10 @@ void QuadraticEncode(CommandLine * cline)
 	      if(strlen(word_buffer) != 0)
 		{
 		  temp = sscanf(word_buffer, "%d %c %d", &var, &ch, &val);
-		  if(var != 0 )
+		  //the rest of the line is no part of the clause
+		  if(var == 0)
+		    break;
+		  else
 		    {
 		      if(ch == '!')
 			{
-- 
2.43.0


From 569f8916a0115e1b8325d3b330323a2f3b475af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 15/28] fix: generator no longer draws empty domains (division
 by zero)

---
 src/GenBenFunc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index 5a9b324..e578b95 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -56,7 +56,7 @@ void GenBenFin(CommandLine * cline)
       for(x=0; x<cline->NUM_VAR; x++)
 	{
 	  VARIABLES[x].VAR = x;
-	  VARIABLES[x].VAL = rand() % cline->DOMAIN_SIZE;
+	  VARIABLES[x].VAL = rand() % cline->DOMAIN_SIZE + 1;
 	}
     }
 
-- 
2.43.0


From b34cbd1d01c0e7aff0b48db152435e4a28d50a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 16/28] fix: a satisfiable boolean benchmark keeps its
 solution's literal in every clause unnegated

---
 src/GenBenFunc.cc | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index e578b95..46d1455 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -179,14 +179,7 @@ void GenBenBool(CommandLine * cline)
 	  if(cline->SAT_UNSAT && x==0)
 	    {
 	      //assigning variable to clause
-	      if(rand()%2)
-		{
-		  BCLAUSE_LIST[y][x] = BSOLN[(rand() % cline->NUM_VAR)+1];
-		}
-	      else
-		{
-		  BCLAUSE_LIST[y][x] = -1 * BSOLN[(rand() % cline->NUM_VAR)+1];
-		}
+	      BCLAUSE_LIST[y][x] = BSOLN[(rand() % cline->NUM_VAR)+1];
 	    }
 
 	  //else unsatisfiable
-- 
2.43.0


From 9949d904db33aa03227b38314973fe48eb8dd44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 17/28] fix: accept the documented -restarts spelling of
 -restart

---
 src/Global.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Global.cc b/src/Global.cc
index 666b4d3..4ff0ad0 100644
--- a/src/Global.cc
+++ b/src/Global.cc
@@ -315,7 +315,7 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 		{
 			for(current = 2; current < argc; current++)
 			{
-				if (!strcmp(argv[current], "-restart"))
+				if (!strcmp(argv[current], "-restart") || !strcmp(argv[current], "-restarts"))
 					cline->RESTARTS = atoi(argv[++current]);
 				else if(!strcmp(argv[current], "-verbose"))
 					cline->LOG = true;
-- 
2.43.0


From 3ba8a0e3ccb0273b2a7bf8a04824a7d5b6bc1669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:41 +0000
Subject: [PATCH 18/28] fix: boolean conversion declares every variable up to
 the last one used

---
 src/Boolean2Finite.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index e8fa91e..6ef9995 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -118,13 +118,12 @@ void Boolean2Finite(CommandLine * cline)
     }
 
   //now writing back the domain information
-  set<int>::iterator start = variables.begin();
-  set<int>::iterator end = variables.end();
-  end--;
-  for( ; start != end; )
+  //the solver finds a variable by its position: every one up to the last
+  //needs its line, whether it occurs or not
+  int last = variables.empty() ? 0 : *variables.rbegin();
+  for(int v=1; v<=last; v++)
     {
-      ++start;
-      outfile<<"d "<<*start<<" 2"<<endl;
+      outfile<<"d "<<v<<" 2"<<endl;
     }
 
   int ovsize = data.size();
-- 
2.43.0


From f108744f1041a854bb5f1008752581f3db4df720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:41 +0000
Subject: [PATCH 19/28] fix: boolean conversion writes every clause, the empty
 one too, with its end marker

---
 src/Boolean2Finite.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index 6ef9995..fe65153 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -66,6 +66,16 @@ void Boolean2Finite(CommandLine * cline)
 	  outfile.write(line_buffer, strlen(line_buffer));
 	  outfile.put('\n');
 	}
+      //a line without a word is not a clause
+      else if(strspn(line_buffer, " \t\r") == strlen(line_buffer))
+	{
+	  continue;
+	}
+      //% ends the clauses of SATLIB files
+      else if(line_buffer[0] == '%')
+	{
+	  break;
+	}
       //else its variables
       else
 	{
@@ -145,7 +155,7 @@ void Boolean2Finite(CommandLine * cline)
 	      outfile<<var<<"=1 ";
 	    }
 	}
-      outfile<<endl;
+      outfile<<"0"<<endl;
     }
   //closing file
   infile.close();
-- 
2.43.0


From d769c8f2b174c250e4d76cb93719921562c2a015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:41 +0000
Subject: [PATCH 20/28] fix: generator exits with an error when it cannot write
 its file

---
 src/GenBenFunc.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index 46d1455..70f6533 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -119,6 +119,7 @@ void GenBenFin(CommandLine * cline)
       cout<<" Could not open output file to write "<<endl;
       cout<<"****       ****"<<endl;
       cout<<endl;
+      exit(1);
     }
   else
     {
@@ -225,6 +226,7 @@ void GenBenBool(CommandLine * cline)
       cout<<" Could not open output file to write "<<endl;
       cout<<"****       ****"<<endl;
       cout<<endl;
+      exit(1);
     }
   else
     {
-- 
2.43.0


From 97b1c6f4337ea5a9a29f1885022a3f865308cf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 21/28] fix: encoders do not turn a blank line into an empty
 clause

---
 src/LinearEncode.cc    | 5 +++++
 src/QuadraticEncode.cc | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 1219dfe..e13246a 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -95,6 +95,11 @@ void LinearEncode(CommandLine * cline)
 	    }
 	  domain[var] = val;
 	}
+      //a line without a word is not a clause
+      else if(strspn(line_buffer, " \t\r") == strlen(line_buffer))
+	{
+	  continue;
+	}
       //else its variables
       else
 	{
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 98d42cf..7e110f8 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -82,6 +82,11 @@ void QuadraticEncode(CommandLine * cline)
 	  num_clause += val*(val-1)/2;
 	  num_clause += 1;
 	}
+      //a line without a word is not a clause
+      else if(strspn(line_buffer, " \t\r") == strlen(line_buffer))
+	{
+	  continue;
+	}
       //else its variables
       else
 	{
-- 
2.43.0


From a05fde5562f3d54e36185a18b5620728f8e45823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:04 +0000
Subject: [PATCH 22/28] fix: linear encoding refuses input that its tables have
 no place for

---
 src/LinearEncode.cc | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index e13246a..ad55443 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -25,8 +25,8 @@ void LinearEncode(CommandLine * cline)
   int num_var = 0;
   int new_num_clause = 0;
   int new_num_var = 0;
-  int * domain;
-  int * index;
+  int * domain = NULL;
+  int * index = NULL;
   int var, val;
   int temp;
   bool isdone = false;
@@ -74,6 +74,12 @@ void LinearEncode(CommandLine * cline)
 	{
 	  //do nothing
 	  temp = sscanf(line_buffer, "p %*s %d %d", &var, &val);
+	  if(temp != 2 || var < 1 || num_var > 0)
+	    {
+	      cout<<"**** ERROR ****"<<endl;
+	      cout<<"Bad problem line : "<<line_buffer<<endl;
+	      exit(1);
+	    }
 	  num_var = var;
 	  num_clause = val;
 	  domain = new int[var+1];
@@ -86,6 +92,13 @@ void LinearEncode(CommandLine * cline)
       else if(line_buffer[0] == 'd')
 	{
 	  temp = sscanf(line_buffer, "d %d %d", &var, &val);
+	  //only variables of the problem line have a place in the tables
+	  if(temp != 2 || isdone || var < 1 || var > num_var || val < 1)
+	    {
+	      cout<<"**** ERROR ****"<<endl;
+	      cout<<"Bad domain line : "<<line_buffer<<endl;
+	      exit(1);
+	    }
 	  //a two-valued variable is one boolean variable without clauses
 	  if(val > 2)
 	    {
@@ -103,6 +116,12 @@ void LinearEncode(CommandLine * cline)
       //else its variables
       else
 	{
+	  if(num_var < 1)
+	    {
+	      cout<<"**** ERROR ****"<<endl;
+	      cout<<"Clause before the problem line : "<<line_buffer<<endl;
+	      exit(1);
+	    }
 	  if(!isdone)
 	    {
 	      isdone = true;
@@ -174,6 +193,8 @@ void LinearEncode(CommandLine * cline)
 	      //converting into int and writing to file
 	      if(strlen(word_buffer) != 0)
 		{
+		  var = val = -1;
+		  ch = ' ';
 		  temp = sscanf(word_buffer, "%d %c %d", &var, &ch, &val);
 		  if(ch == '!')
 		    temp = sscanf(word_buffer, "%d %c %c %d", &var, &ch, &ch1, &val);
@@ -181,6 +202,14 @@ void LinearEncode(CommandLine * cline)
 		  //the rest of the line is no part of the clause
 		  if(var == 0)
 		    break;
+		  //a literal names a variable and one of its values
+		  else if(var < 0 || var > num_var || (ch != '=' && ch != '!')
+			  || val < 0 || val >= domain[var])
+		    {
+		      cout<<"**** ERROR ****"<<endl;
+		      cout<<"Bad literal : "<<word_buffer<<endl;
+		      exit(1);
+		    }
 		  else
 		    {
 		      if(domain[var] > 2)
-- 
2.43.0


From d68ca5ae48f5ff906e12738cefa2990e6127d17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:26 +0000
Subject: [PATCH 23/28] fix: linear encoding of single-valued and repeatedly
 declared variables

---
 src/LinearEncode.cc | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index ad55443..f6348e8 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -99,13 +99,6 @@ void LinearEncode(CommandLine * cline)
 	      cout<<"Bad domain line : "<<line_buffer<<endl;
 	      exit(1);
 	    }
-	  //a two-valued variable is one boolean variable without clauses
-	  if(val > 2)
-	    {
-	      count++;
-	      new_num_var += 2*val-1;
-	      new_num_clause += 4*(val-2)+3+1;
-	    }
 	  domain[var] = val;
 	}
       //a line without a word is not a clause
@@ -125,6 +118,20 @@ void LinearEncode(CommandLine * cline)
 	  if(!isdone)
 	    {
 	      isdone = true;
+	      for(int i=1; i<num_var+1; i++)
+		{
+		  val = domain[i];
+		  //a two-valued variable is one boolean variable without clauses
+		  if(val > 2)
+		    {
+		      count++;
+		      new_num_var += 2*val-1;
+		      new_num_clause += 4*(val-2)+3+1;
+		    }
+		  //one with a single value is a boolean variable that is false
+		  else if(val == 1)
+		    new_num_clause += 1;
+		}
 	      new_num_clause += num_clause;
 	      new_num_var += (num_var - count);
 	      outfile<<"p cnf "<<new_num_var<<" "<<new_num_clause<<endl;
@@ -167,6 +174,10 @@ void LinearEncode(CommandLine * cline)
 			  outfile<<var_t1<<" "<<var_t2<<" 0\n";
 			}
 		    }
+		  else if(domain[i] == 1)
+		    {
+		      outfile<<-(index[i])<<" 0"<<endl;
+		    }
 		  else
 		    {
 		      //do nothing
-- 
2.43.0


From dac1038e7193857563343191818413d1845d631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:22 +0000
Subject: [PATCH 24/28] fix: encoders write the header of a formula without
 clauses

---
 src/LinearEncode.cc    | 12 +++++++++---
 src/QuadraticEncode.cc | 10 ++++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index f6348e8..9fdab3a 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -30,6 +30,7 @@ void LinearEncode(CommandLine * cline)
   int var, val;
   int temp;
   bool isdone = false;
+  bool more = true;
   int count = 0;
   char ch, ch1;
 
@@ -57,8 +58,11 @@ void LinearEncode(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(getline(infile, line))
+  //the end of a file without clauses is where its header is written
+  while((more = (bool) getline(infile, line)) || !isdone)
     {
+      if(!more)
+	line.clear();
       //lines can have any length, and so can words
       char * line_buffer = &line[0];
       word.resize(line.size() + 1);
@@ -102,7 +106,7 @@ void LinearEncode(CommandLine * cline)
 	  domain[var] = val;
 	}
       //a line without a word is not a clause
-      else if(strspn(line_buffer, " \t\r") == strlen(line_buffer))
+      else if(more && strspn(line_buffer, " \t\r") == strlen(line_buffer))
 	{
 	  continue;
 	}
@@ -112,7 +116,7 @@ void LinearEncode(CommandLine * cline)
 	  if(num_var < 1)
 	    {
 	      cout<<"**** ERROR ****"<<endl;
-	      cout<<"Clause before the problem line : "<<line_buffer<<endl;
+	      cout<<(more ? "Clause before the problem line : " : "No problem line")<<line_buffer<<endl;
 	      exit(1);
 	    }
 	  if(!isdone)
@@ -186,6 +190,8 @@ void LinearEncode(CommandLine * cline)
 		}
 	    }
 
+	  if(!more)
+	    break;
 	  char * lp = line_buffer;
 	  do
 	    {
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 7e110f8..5169496 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -24,6 +24,7 @@ void QuadraticEncode(CommandLine * cline)
   int var, val;
   int temp;
   bool isdone = false;
+  bool more = true;
   bool isneg = false;
   Variable * temp_var;
   vector <Variable *> VAR_LIST;
@@ -53,8 +54,11 @@ void QuadraticEncode(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(getline(infile, line))
+  //the end of a file without clauses is where its header is written
+  while((more = (bool) getline(infile, line)) || !isdone)
     {
+      if(!more)
+	line.clear();
       //lines can have any length, and so can words
       char * line_buffer = &line[0];
       word.resize(line.size() + 1);
@@ -83,7 +87,7 @@ void QuadraticEncode(CommandLine * cline)
 	  num_clause += 1;
 	}
       //a line without a word is not a clause
-      else if(strspn(line_buffer, " \t\r") == strlen(line_buffer))
+      else if(more && strspn(line_buffer, " \t\r") == strlen(line_buffer))
 	{
 	  continue;
 	}
@@ -111,6 +115,8 @@ void QuadraticEncode(CommandLine * cline)
 		    }
 		}
 	    }
+	  if(!more)
+	    break;
 	  char * lp = line_buffer;
 	  do
 	    {
-- 
2.43.0


From 8b2071ccfeb5e8aa948de86fe96ae45b8bc4a36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:54 +0000
Subject: [PATCH 25/28] fix: Boolean conversion ends a clause at its 0, not at
 the end of the line

---
 src/Boolean2Finite.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index fe65153..a19e349 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -22,6 +22,7 @@ void Boolean2Finite(CommandLine * cline)
   int variable = 0;
   set<int> variables;
   vector <vector<int> > data;
+  vector <int> temp;
 
   //opening infile to read and checking if it opens
   infile.open(cline->FILE, ios::in);
@@ -80,12 +81,11 @@ void Boolean2Finite(CommandLine * cline)
       else
 	{
 	  char * lp = line_buffer;
-	  vector <int> temp;
 	  do
 	    {
 	      char * wp = word_buffer;
 	      //erasing all leading space/tabs
-	      while (*lp && ((*lp == ' ') || (*lp == '\t')))
+	      while (*lp && ((*lp == ' ') || (*lp == '\t') || (*lp == '\r')))
 		{
 		  lp++;
 		}
@@ -116,16 +116,19 @@ void Boolean2Finite(CommandLine * cline)
 			  temp.push_back(variable);
 			}
 		    }
-		  //else print newline in outfile
+		  //else the clause is complete, wherever its lines end
 		  else
 		    {
-		      //outfile.put('\n');
+		      data.push_back(temp);
+		      temp.clear();
 		    }
 		}
 	    }while(*lp);
-	  data.push_back(temp);
 	}
     }
+  //the 0 of the last clause may be missing
+  if(!temp.empty())
+    data.push_back(temp);
 
   //now writing back the domain information
   //the solver finds a variable by its position: every one up to the last
-- 
2.43.0


From 3566f867c9c527a35281e6580f4ce27736cda357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:37 +0000
Subject: [PATCH 26/28] fix: the help menu ends at the end of its input

---
 bitvec/Global.cc | 4 +++-
 src/Global.cc    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bitvec/Global.cc b/bitvec/Global.cc
index 13de27b..5470e35 100644
--- a/bitvec/Global.cc
+++ b/bitvec/Global.cc
@@ -45,7 +45,9 @@ void PrintHelp()
 		cout<<" (0) Quit"<<endl;
 		cout<<endl;
 		cout<<" Enter Choice now : ";
-		cin>>option;
+		//the end of the input quits as 0 does
+		if(!(cin>>option))
+			option = 0;
 		cout<<endl;
 
 		//Start Printing messages based on option
diff --git a/src/Global.cc b/src/Global.cc
index 4ff0ad0..e0adfd1 100644
--- a/src/Global.cc
+++ b/src/Global.cc
@@ -50,7 +50,9 @@ void PrintHelp()
 		cout<<" (0) Quit"<<endl;
 		cout<<endl;
 		cout<<" Enter Choice now : ";
-		cin>>option;
+		//the end of the input quits as 0 does
+		if(!(cin>>option))
+			option = 0;
 		cout<<endl;
 
 		//Start Printing messages based on option
-- 
2.43.0


From 491175956b4dc4180e67d60866b791570c8d1d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:05 +0000
Subject: [PATCH 27/28] fix: benchmark requests that cannot be met end with an
 error, not with a crash or an endless search

---
 src/Main.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Main.cc b/src/Main.cc
index 0dda74b..3957689 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -44,6 +44,17 @@ int main(int argc, char ** argv)
 
   else if(!strcmp(argv[1], "-genben"))
     {
+      //what is asked for has to be possible : a clause names different
+      //variables, each with at least one value
+      if(clineinfo->NUM_VAR < 1 || clineinfo->NUM_CLAUSE < 0
+	 || clineinfo->CLAUSE_SIZE < 1 || clineinfo->CLAUSE_SIZE > clineinfo->NUM_VAR
+	 || (clineinfo->BOOL_FINITE && clineinfo->DOMAIN_SIZE < 1))
+	{
+	  cout<<"**** ERROR ****"<<endl;
+	  cout<<"No such benchmark problem can be made"<<endl;
+	  exit(1);
+	}
+
       //if option is to generate finite domain
       if(clineinfo->BOOL_FINITE)
 	{
-- 
2.43.0


From dd55f6872979a131c103635b472e3e5eece30bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:35 +0000
Subject: [PATCH 28/28] fix: an option at the end of the command line that
 lacks its value is an error

---
 bitvec/Global.cc | 24 +++++++++++++++++++-----
 src/Global.cc    | 46 ++++++++++++++++++++++++++++++----------------
 2 files changed, 49 insertions(+), 21 deletions(-)

diff --git a/bitvec/Global.cc b/bitvec/Global.cc
index 5470e35..62091b3 100644
--- a/bitvec/Global.cc
+++ b/bitvec/Global.cc
@@ -86,6 +86,20 @@ void PrintHelp()
 }
 //End PrintHelp
 
+//OptionValue
+//the number that follows an option : argv ends with NULL
+static int OptionValue(const char * value)
+{
+	if(value == NULL)
+	{
+		cout<<"**** ERROR ****"<<endl;
+		cout<<"The last option has no value"<<endl;
+		exit(1);
+	}
+	return atoi(value);
+}
+//End OptionValue
+
 //ParseCommandLine
 //parsing the commandline options
 void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
@@ -128,7 +142,7 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 			for(current = 2; current < argc; current++)
 			{
 				if (!strcmp(argv[current], "-restart"))
-					cline->RESTARTS = atoi(argv[++current]);
+					cline->RESTARTS = OptionValue(argv[++current]);
 				else if(!strcmp(argv[current], "-verbose"))
 					cline->LOG = true;
 				else if(!strcmp(argv[current], "-wl"))
@@ -138,17 +152,17 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 				else if(!strcmp(argv[current], "-model"))
 					cline->MODEL = true;
 				else if(!strcmp(argv[current], "-var"))
-					cline->NUM_VAR = atoi(argv[++current]);
+					cline->NUM_VAR = OptionValue(argv[++current]);
 				else if(!strcmp(argv[current], "-clause"))
-					cline->NUM_CLAUSE = atoi(argv[++current]);
+					cline->NUM_CLAUSE = OptionValue(argv[++current]);
 				else if(!strcmp(argv[current], "-clausesize"))
-					cline->CLAUSE_SIZE = atoi(argv[++current]);
+					cline->CLAUSE_SIZE = OptionValue(argv[++current]);
 				else if(!strcmp(argv[current], "-file"))
 					cline->FILE = argv[++current];
 				else if(!strcmp(argv[current], "-model"))
 					cline->MODEL_FILE = argv[++current];
 				else if(!strcmp(argv[current], "-time"))
-					cline->TIME = atoi(argv[++current]);
+					cline->TIME = OptionValue(argv[++current]);
 				else
 					;
 			}
diff --git a/src/Global.cc b/src/Global.cc
index e0adfd1..26f28d1 100644
--- a/src/Global.cc
+++ b/src/Global.cc
@@ -178,6 +178,20 @@ void PrintHelp()
 }
 //End PrintHelp
 
+//OptionValue
+//the number that follows an option : argv ends with NULL
+static int OptionValue(const char * value)
+{
+	if(value == NULL)
+	{
+		cout<<"**** ERROR ****"<<endl;
+		cout<<"The last option has no value"<<endl;
+		exit(1);
+	}
+	return atoi(value);
+}
+//End OptionValue
+
 //ParseCommandLine
 //parsing the commandline options
 void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
@@ -223,19 +237,19 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 			for(current = 2; current < argc; current++)
 			{
 				if(!strcmp(argv[current], "-var"))
-					cline->NUM_VAR = atoi(argv[++current]);
+					cline->NUM_VAR = OptionValue(argv[++current]);
 				else if(!strcmp(argv[current], "-clause"))
-					cline->NUM_CLAUSE = atoi(argv[++current]);
+					cline->NUM_CLAUSE = OptionValue(argv[++current]);
 				else if(!strcmp(argv[current], "-clausesize"))
-					cline->CLAUSE_SIZE = atoi(argv[++current]);
+					cline->CLAUSE_SIZE = OptionValue(argv[++current]);
 				else if(!strcmp(argv[current], "-sat"))
-					cline->SAT_UNSAT = atoi(argv[++current]);
+					cline->SAT_UNSAT = OptionValue(argv[++current]);
 				else if(!strcmp(argv[current], "-domain"))
-					cline->DOMAIN_SIZE = atoi(argv[++current]);
+					cline->DOMAIN_SIZE = OptionValue(argv[++current]);
 				else if(!strcmp(argv[current], "-drand"))
-					cline->DRAND = atoi(argv[++current]);
+					cline->DRAND = OptionValue(argv[++current]);
 				else if(!strcmp(argv[current], "-bool"))
-					cline->BOOL_FINITE = atoi(argv[++current]);
+					cline->BOOL_FINITE = OptionValue(argv[++current]);
 				else if(!strcmp(argv[current], "-file"))
 					cline->FILE = argv[++current];
 				else
@@ -291,17 +305,17 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 			for(current = 2; current < argc; current++)
 			{
 				if(!strcmp(argv[current], "-var"))
-					cline->NUM_VAR = atoi(argv[++current]);
+					cline->NUM_VAR = OptionValue(argv[++current]);
 				else if(!strcmp(argv[current], "-clause"))
-					cline->NUM_CLAUSE = atoi(argv[++current]);
+					cline->NUM_CLAUSE = OptionValue(argv[++current]);
 				else if(!strcmp(argv[current], "-clausesize"))
-					cline->CLAUSE_SIZE = atoi(argv[++current]);
+					cline->CLAUSE_SIZE = OptionValue(argv[++current]);
 				else if(!strcmp(argv[current], "-file"))
 					cline->FILE = argv[++current];
 				else if(!strcmp(argv[current], "-model"))
 					cline->MODEL_FILE = argv[++current];
 				else if(!strcmp(argv[current], "-time"))
-					cline->TIME = atoi(argv[++current]);
+					cline->TIME = OptionValue(argv[++current]);
 				else if(!strcmp(argv[current], "-lazy"))
 					cline -> heuristic = Heuristic::lazy;
 				else if(!strcmp(argv[current], "-verbose"))
@@ -318,7 +332,7 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 			for(current = 2; current < argc; current++)
 			{
 				if (!strcmp(argv[current], "-restart") || !strcmp(argv[current], "-restarts"))
-					cline->RESTARTS = atoi(argv[++current]);
+					cline->RESTARTS = OptionValue(argv[++current]);
 				else if(!strcmp(argv[current], "-verbose"))
 					cline->LOG = true;
 				else if(!strcmp(argv[current], "-wl")) {
@@ -335,15 +349,15 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 				else if(!strcmp(argv[current], "-model"))
 					cline->MODEL = true;
 				else if(!strcmp(argv[current], "-var"))
-					cline->NUM_VAR = atoi(argv[++current]);
+					cline->NUM_VAR = OptionValue(argv[++current]);
 				else if(!strcmp(argv[current], "-clause"))
-					cline->NUM_CLAUSE = atoi(argv[++current]);
+					cline->NUM_CLAUSE = OptionValue(argv[++current]);
 				else if(!strcmp(argv[current], "-clausesize"))
-					cline->CLAUSE_SIZE = atoi(argv[++current]);
+					cline->CLAUSE_SIZE = OptionValue(argv[++current]);
 				else if(!strcmp(argv[current], "-file"))
 					cline->FILE = argv[++current];
 				else if(!strcmp(argv[current], "-time"))
-					cline->TIME = atoi(argv[++current]);
+					cline->TIME = OptionValue(argv[++current]);
 				else
 					;
 			}
-- 
2.43.0

