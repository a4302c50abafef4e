From 9685f562a158657c7333c620ecca40aa9f6d88f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 01/56] fix: grow the Lua stack while parsing, nesting or right
 recursion no longer overruns it

---
 src/lua_run_compiler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index ab91c3c..dd3c75f 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -416,6 +416,9 @@ static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbg
 /// \return true, if the lexem has been consumed, false if we have to feed the same lexem again
 static bool feedLexem( lua_State* ls, CompilerContext& ctx, const mewa::Automaton& automaton, const mewa::Lexem& lexem)
 {
+	// Every open element of the parse occupies a Lua stack slot, so the stack has to grow with the nesting of the source:
+	if (!lua_checkstack( ls, 20)) throw mewa::Error( mewa::Error::LuaStackOutOfMemory, "compiler", lexem.line());
+
 	auto nexti = automaton.actions().find( {ctx.stateStack.back().index, lexem.id()/*terminal*/});
 	if (nexti == automaton.actions().end())
 	{
-- 
2.43.0


From 9102761e77b53cc5730d776254176d8a5feab3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 02/56] fix: lexer skips the source matching an IGNORE pattern
 instead of looping forever on it

---
 src/lexer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index dbb09e7..d1f666c 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -625,6 +625,10 @@ Lexem Lexer::next( Scanner& scanner) const
 				scanner.next( maxlen);
 				return Lexem( m_defar[ matchidx].name(), m_defar[ matchidx].id(), std::string_view( matchstart, matchsize), line);
 			}
+			else
+			{
+				scanner.next( maxlen); //... ignored, skip it and fetch next lexem
+			}
 		}
 	}
 }
-- 
2.43.0


From efda6fd342fa725787d756fe90c9a7340aff468f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 03/56] fix: lexer does not emit a keyword of which only the
 first character matches

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index d1f666c..b65947c 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -592,7 +592,7 @@ Lexem Lexer::next( Scanner& scanner) const
 			{
 				if (idx >= (int)m_defar.size()) throw Error( Error::ArrayBoundReadInLexer);
 				auto mm = m_defar[ idx].match( start, scanner.restsize());
-				if (maxlen <= mm.second && (maxlen < mm.second || m_defar[ idx].keyword())) //... keywords preferred if length is the same
+				if (mm.second > 0 && maxlen <= mm.second && (maxlen < mm.second || m_defar[ idx].keyword())) //... keywords preferred if length is the same
 				{
 					maxlen = mm.second;
 					matchstart = mm.first.data();
-- 
2.43.0


From 3bb20514219a9f20076fc2ebf3f51709b32ace15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 04/56] fix: lexer closes open indentation when the source ends
 with a comment without end of line

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index b65947c..2ce388f 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -570,7 +570,7 @@ Lexem Lexer::next( Scanner& scanner) const
 				{
 					if (!scanner.scan( "\n"))
 					{
-						return Lexem( scanner.line()); //... no EOLN then return EOF
+						scanner.next( scanner.restsize()); //... no EOLN then the comment ends with the source
 					}
 					break; //... comment skipped, fetch next lexem
 				}
-- 
2.43.0


From 1a2ba867380dcd2738d0c8081dfccc2e781505ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 05/56] fix: lexer tries every pattern that can match at a
 character (optional prefixes, alternatives, groups, any character)

---
 src/lexer.cpp | 167 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 100 insertions(+), 67 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 2ce388f..8046166 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -98,48 +98,44 @@ static bool extractFirstCharacters( std::string& res, char const*& si, char eb)
 	return !empty;
 }
 
-static bool skipBrackets( char const*& si, char eb)
+static void skipCharset( char const*& si)
 {
-	char sb = *si++;
-	int cnt = 1;
-
-	bool empty = true;
-	for (; *si && cnt > 0; ++si)
+	for (++si; *si && *si != ']'; ++si)
 	{
-		if (*si == eb)
-		{
-			--cnt;
-		}
-		else if (*si == sb)
-		{
-			++cnt;
-		}
-		else
-		{
-			empty = false;
-		}
+		if (*si == '\\' && si[1]) ++si;
 	}
-	if (!*si && cnt != 0) throw Error( Error::SyntaxErrorInLexer);
-	return !empty;
+	if (!*si) throw Error( Error::SyntaxErrorInLexer);
+	++si;
 }
 
+/// \brief Skip the multiplicator following an element of a regular expression
+/// \return true if the multiplicator allows the element to be left out
 static bool skipMultiplicator( char const*& si)
 {
-	if (*si)
+	bool rt = false;
+	if (*si == '*' || *si == '?')
 	{
-		if (*si == '*')
-		{
-			++si;
-			return false;
-		}
-		if (*si == '{')
-		{
-			bool empty = (si[1] == '0' && si[2] == ',');
-			(void)skipBrackets( si, '}');
-			return !empty;
-		}
+		rt = true;
+		++si;
 	}
-	return true;
+	else if (*si == '+')
+	{
+		++si;
+	}
+	else if (*si == '{')
+	{
+		for (++si; *si == '0'; ++si){}
+		rt = (*si == ',' || *si == '}') && si[-1] == '0';
+		while (*si && *si != '}') ++si;
+		if (!*si) throw Error( Error::SyntaxErrorInLexer);
+		++si;
+	}
+	else
+	{
+		return false;
+	}
+	if (*si == '?') ++si; //... not greedy
+	return rt;
 }
 
 static std::string inverseCharset( const std::string& charset)
@@ -151,54 +147,91 @@ static std::string inverseCharset( const std::string& charset)
 	return rt;
 }
 
-std::string LexemDef::activation( const std::string& source_)
+/// \brief Collect the characters an expression can start with
+/// \param[out] res where to append the characters
+/// \param[in,out] si parser position in the source of the expression, moved to the end of the source or the bracket closing the expression
+/// \param[in] collect false, if the expression is to be skipped only
+/// \return true, if the expression can match the empty string
+static bool collectFirstCharacters( std::string& res, char const*& si, bool collect)
 {
-	std::string rt;
-	bool empty = true;
-	char const* si = source_.c_str();
-	if (*si == '^') ++si;
-	while (empty)
+	bool rt = false;
+	for (;;)
 	{
-		if (*si == '\0')
-		{
-			return rt;
-		}
-		else if (*si == '[')
+		bool empty = true;		//... true, as long as the alternative parsed can match the empty string
+		while (*si && *si != '|' && *si != ')')
 		{
-			++si;
-			bool inverse = false;
-			if (*si == '^')
+			bool elementEmpty = false;
+			bool collectElement = collect && empty;
+			if (*si == '[')
 			{
-				inverse = true;
+				if (!collectElement)
+				{
+					skipCharset( si);
+				}
+				else
+				{
+					++si;
+					bool inverse = (*si == '^');
+					if (inverse) ++si;
+					std::string charset;
+					elementEmpty = !extractFirstCharacters( charset, si, ']') && !inverse;
+					res.append( inverse ? inverseCharset( charset) : charset);
+				}
+			}
+			else if (*si == '(')
+			{
+				++si;
+				if (si[0] == '?' && (si[1] == '=' || si[1] == '!'))
+				{
+					si += 2;	//... look ahead matches the empty string
+					(void)collectFirstCharacters( res, si, false/*collect*/);
+					elementEmpty = true;
+				}
+				else
+				{
+					if (si[0] == '?' && si[1] == ':') si += 2;
+					elementEmpty = collectFirstCharacters( res, si, collectElement);
+				}
+				if (*si != ')') throw Error( Error::SyntaxErrorInLexer);
 				++si;
 			}
-			bool hasCharacters = extractFirstCharacters( rt, si, ']');
-			bool potentiallyIgnored = (skipMultiplicator( si) == false);
-			empty = !hasCharacters || potentiallyIgnored;
-			if (inverse) rt = inverseCharset( rt);
-		}
-		else if (*si == '(')
-		{
-			for (;;)
+			else if (*si == '^' || *si == '$')
 			{
-				char const* start = si+1;
-				bool hasCharacters = skipBrackets( si, ')');
-				bool potentiallyIgnored = (skipMultiplicator( si) == false);
-				empty = !hasCharacters || potentiallyIgnored;
-				rt.append( activation( std::string( start, si-start-1)));
-				if (*si != '|') break;
 				++si;
+				elementEmpty = true;
 			}
+			else if (*si == '.')
+			{
+				++si;
+				if (collectElement) res.append( inverseCharset( std::string()));
+			}
+			else if (collectElement)
+			{
+				res.push_back( parseFirstChar( si, true/*allowNonAscii*/));
+			}
+			else
+			{
+				if (*si == '\\' && si[1]) ++si;
+				++si;
+			}
+			elementEmpty |= skipMultiplicator( si);
+			empty &= elementEmpty;
 		}
-		else
-		{
-			rt.push_back( parseFirstChar( si, true/*allowNonAscii*/));
-			empty = false;
-		}
+		rt |= empty;
+		if (*si != '|') break;
+		++si;
 	}
 	return rt;
 }
 
+std::string LexemDef::activation( const std::string& source_)
+{
+	std::string rt;
+	char const* si = source_.c_str();
+	(void)collectFirstCharacters( rt, si, true/*collect*/);
+	return rt;
+}
+
 std::pair<std::string_view,int> LexemDef::match( const char* srcptr, std::size_t srclen) const
 {
 	std::match_results<char const*> pieces_match;
-- 
2.43.0


From 5ead6e5c9c0686f13e79c347a5f02f67b79c76ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 06/56] fix: lexer tries a pattern starting with a character
 set that ends with '-' for a '-' in the source

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 8046166..2b6eeeb 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -74,7 +74,7 @@ static bool extractFirstCharacters( std::string& res, char const*& si, char eb)
 			char from = res[ res.size()-1];
 			if (!*si || *si == eb)
 			{
-				res.push_back( from);
+				res.push_back( '-');
 				break;
 			}
 			else
-- 
2.43.0


From 64e870ed02ead973129e81ddb04c8a587ec2e1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 07/56] fix: keyword with a $ matches the character instead of
 the end of the source

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 2b6eeeb..bf9c5c8 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -16,7 +16,7 @@
 
 using namespace mewa;
 
-#define REGEX_ESCAPE_CHARS "#{}[]()*+?.-\\|&^"
+#define REGEX_ESCAPE_CHARS "#{}[]()*+?.-\\|&^$"
 
 static std::string_view parseChar( char const*& si)
 {
-- 
2.43.0


From ae8f229ad11b048b791cdcb74ebaedbc5310a1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 08/56] fix: production with (>>) and no call increments the
 scope-step as documented

---
 src/lua_run_compiler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index dd3c75f..202023b 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -460,6 +460,10 @@ static bool feedLexem( lua_State* ls, CompilerContext& ctx, const mewa::Automato
 			}
 			else
 			{
+				if (nexti->second.scopeflag() == mewa::Automaton::Action::Step)
+				{
+					ctx.scopestep += 1; //... production without call incrementing the scope-step
+				}
 				luaStackNofElements = getLuaStackReductionSize( ctx.stateStack, reductionSize);
 			}
 			ctx.stateStack.resize( ctx.stateStack.size() - reductionSize);
-- 
2.43.0


From 1feb59613b5dccc46308c5a146e9131af37956b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 09/56] fix: def_type_as returns -1 for a duplicate definition
 as documented

---
 src/typedb.cpp | 2 +-
 src/typedb.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index a61be70..6274210 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -250,7 +250,7 @@ int TypeDatabase::defineTypeAs( const Scope& scope, int contextType, const std::
 	if (contextType < 0 || contextType > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", contextType));
 	if (type <= 0 || type > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", type));
 	TypeDef typeDef( contextType, m_identMap->get( name));
-	return m_typeTable->set( scope, typeDef, type) ? type : 0;
+	return m_typeTable->set( scope, typeDef, type) ? type : -1;
 }
 
 void TypeDatabase::defineReduction( const Scope& scope, int toType, int fromType, int constructor, int tag, float weight)
diff --git a/src/typedb.hpp b/src/typedb.hpp
index 9564244..3ce0d05 100644
--- a/src/typedb.hpp
+++ b/src/typedb.hpp
@@ -283,7 +283,7 @@ public:
 	/// \param[in] contextType the context of this type.
 	/// \param[in] name name of the type
 	/// \param[in] type handle of the type defined
-	/// \return the type handle passed as argument in case of success, 0 in case of already defined (duplicate definition)
+	/// \return the type handle passed as argument in case of success, -1 in case of already defined (duplicate definition)
 	int defineTypeAs( const Scope& scope, int contextType, const std::string_view& name, int type);
 
 	/// \brief Get a type with exact signature defined in a specified scope (does not search other valid definitions in enclosing scopes)
-- 
2.43.0


From a5eca4fb4f3a79e8e0f6dc15f3177c1e416dab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 10/56] fix: overloads of a type and of its synonyms do not
 share a list, type_tree shows all overloads

---
 src/typedb.cpp | 82 ++++++++++++++++++++++++++------------------------
 src/typedb.hpp | 25 ++++++++++-----
 2 files changed, 61 insertions(+), 46 deletions(-)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index 6274210..e23ff2a 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -144,19 +144,19 @@ bool TypeDatabase::compareParameterSignature( const TypeDatabase::TypeConstructo
 	return true;
 }
 
-int TypeDatabase::findTypeWithSignature( int typerec, const TypeDatabase::TypeConstructorPairList& parameter, int& lastListIndex) const noexcept
+int TypeDatabase::findTypeWithSignature( int typelist, const TypeDatabase::TypeConstructorPairList& parameter, int& lastListIndex) const noexcept
 {
 	lastListIndex = 0;
-	int tri = typerec;
-	while (tri)
+	int tli = typelist;
+	while (tli)
 	{
-		auto const& tr = m_typerecMap[ tri-1];
-		if (compareParameterSignature( parameter, tr.parameter, tr.parameterlen)) break;
+		auto const& tr = m_typerecMap[ m_typeList[ tli-1].type-1];
+		if (compareParameterSignature( parameter, tr.parameter, tr.parameterlen)) return m_typeList[ tli-1].type;
 
-		lastListIndex = tri;
-		tri = tr.next;
+		lastListIndex = tli;
+		tli = m_typeList[ tli-1].next;
 	}
-	return tri;
+	return 0;
 }
 
 bool TypeDatabase::compareParameterSignature( const TypeDatabase::TypeList& parameter, int param2, int paramlen2) const noexcept
@@ -169,17 +169,17 @@ bool TypeDatabase::compareParameterSignature( const TypeDatabase::TypeList& para
 	return true;
 }
 
-int TypeDatabase::findTypeWithSignature( int typerec, const TypeDatabase::TypeList& parameter) const noexcept
+int TypeDatabase::findTypeWithSignature( int typelist, const TypeDatabase::TypeList& parameter) const noexcept
 {
-	int tri = typerec;
-	while (tri)
+	int tli = typelist;
+	while (tli)
 	{
-		auto const& tr = m_typerecMap[ tri-1];
-		if (compareParameterSignature( parameter, tr.parameter, tr.parameterlen)) break;
+		auto const& tr = m_typerecMap[ m_typeList[ tli-1].type-1];
+		if (compareParameterSignature( parameter, tr.parameter, tr.parameterlen)) return m_typeList[ tli-1].type;
 
-		tri = tr.next;
+		tli = m_typeList[ tli-1].next;
 	}
-	return tri;
+	return 0;
 }
 
 int TypeDatabase::getType( const Scope& scope, int contextType, const std::string_view& name, const TypeList& parameter) const
@@ -187,8 +187,8 @@ int TypeDatabase::getType( const Scope& scope, int contextType, const std::strin
 	if (contextType < 0 || contextType > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", contextType));
 	TypeDef typeDef( contextType, m_identMap->get( name));
 
-	int typerec = m_typeTable->getDef( scope, typeDef);
-	return typerec ? findTypeWithSignature( typerec, parameter) : 0;
+	int typelist = m_typeTable->getDef( scope, typeDef);
+	return typelist ? findTypeWithSignature( typelist, parameter) : 0;
 }
 
 TypeDatabase::GetTypesResult TypeDatabase::getTypes( const Scope& scope, int contextType, const std::string_view& name, ResultBuffer& resbuf) const
@@ -197,12 +197,7 @@ TypeDatabase::GetTypesResult TypeDatabase::getTypes( const Scope& scope, int con
 	if (contextType < 0 || contextType > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", contextType));
 	TypeDef typeDef( contextType, m_identMap->get( name));
 
-	int tri = m_typeTable->getDef( scope, typeDef);
-	while (tri)
-	{
-		rt.types.push_back( tri);
-		tri = m_typerecMap[ tri-1].next;
-	}
+	collectResultItems( rt.types, m_typeTable->getDef( scope, typeDef));
 	return rt;
 }
 
@@ -230,18 +225,19 @@ int TypeDatabase::defineType( const Scope& scope, int contextType, const std::st
 	TypeDef typeDef( contextType, m_identMap->get( name));
 	m_typerecMap.push_back( TypeRecord( constructor, scope, parameteridx, parameterlen, typeDef));
 
-	int prev_typerec = m_typeTable->getOrSet( scope, typeDef, typerec);
-	if (prev_typerec/*already exists*/)
+	int typelist = m_typeList.size()+1;
+	int prev_typelist = m_typeTable->getOrSet( scope, typeDef, typelist);
+	if (prev_typelist/*already exists*/)
 	{
 		// Check if there is a conflict, and find the end of the single linked list (-> lastListIndex):
 		int lastListIndex = 0;
-		int tri = findTypeWithSignature( prev_typerec, parameter, lastListIndex);
-		if (tri) return -1;
+		if (findTypeWithSignature( prev_typelist, parameter, lastListIndex)) return -1;
 
 		// ... the definition is new and we got the tail of the list in 'lastListIndex', we add the new created record:
 		if (!lastListIndex) throw Error( Error::LogicError, string_format( "%s line %d", __FILE__, (int)__LINE__));
-		m_typerecMap[ lastListIndex-1].next = typerec;
+		m_typeList[ lastListIndex-1].next = typelist;
 	}
+	m_typeList.push_back( TypeListElement( typerec));
 	return typerec;
 }
 
@@ -250,7 +246,10 @@ int TypeDatabase::defineTypeAs( const Scope& scope, int contextType, const std::
 	if (contextType < 0 || contextType > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", contextType));
 	if (type <= 0 || type > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", type));
 	TypeDef typeDef( contextType, m_identMap->get( name));
-	return m_typeTable->set( scope, typeDef, type) ? type : -1;
+	// The list of types of the synonym is not shared with the type referenced, overloads added to one of them do not belong to the other:
+	if (!m_typeTable->set( scope, typeDef, m_typeList.size()+1)) return -1;
+	m_typeList.push_back( TypeListElement( type));
+	return type;
 }
 
 void TypeDatabase::defineReduction( const Scope& scope, int toType, int fromType, int constructor, int tag, float weight)
@@ -588,12 +587,12 @@ TypeDatabase::DeriveResult TypeDatabase::deriveType(
 	return rt;
 }
 
-void TypeDatabase::collectResultItems( std::pmr::vector<int>& items, int typerecidx) const
+void TypeDatabase::collectResultItems( std::pmr::vector<int>& items, int typelist) const
 {
-	while (typerecidx > 0)
+	while (typelist > 0)
 	{
-		items.push_back( typerecidx);
-		typerecidx = m_typerecMap[ typerecidx-1].next;
+		items.push_back( m_typeList[ typelist-1].type);
+		typelist = m_typeList[ typelist-1].next;
 	}
 }
 
@@ -647,8 +646,8 @@ TypeDatabase::ResolveResult TypeDatabase::resolveType_(
 
 		auto const& elem = stack[ qe.index];
 
-		int typerecidx = m_typeTable->get( step, TypeDef( elem.type, nameid));
-		if (typerecidx)
+		int typelist = m_typeTable->get( step, TypeDef( elem.type, nameid));
+		if (typelist)
 		{
 			//... we found a match
 			if (!alt_searchstate)
@@ -657,7 +656,7 @@ TypeDatabase::ResolveResult TypeDatabase::resolveType_(
 				rt.weightsum = qe.weight;
 				rt.contextType = elem.type;
 				stack.collectResultWithRootIndex( rt.rootIndex, rt.reductions, qe.index);
-				collectResultItems( rt.items, typerecidx);
+				collectResultItems( rt.items, typelist);
 				// Set alternative search state, continue search for an alternative solution to report an ambiguous reference error:
 				alt_searchstate = true;
 			}
@@ -716,19 +715,24 @@ TypeDatabase::TypeDefinitionTree TypeDatabase::getTypeDefinitionTree() const
 {
 	struct TranslateItem
 	{
-		TranslateItem(){}
+		std::vector<TypeListElement> const& typeList;
+
+		explicit TranslateItem( std::vector<TypeListElement> const& typeList_) :typeList(typeList_){}
 		ScopeHierarchyTreeNode<TypeDefinitionList> operator()( const TypeTable::TreeNode& node)
 		{
 			ScopeHierarchyTreeNode<TypeDefinitionList> rt( node.scope, {});
 			for (auto const& elem : node.value)
 			{
-				rt.value.push_back( elem.second);
+				for (int tli = elem.second; tli; tli = typeList[ tli-1].next)
+				{
+					rt.value.push_back( typeList[ tli-1].type);
+				}
 			}
 			return rt;
 		}
 	};
 	Tree<TypeTable::TreeNode> tree = m_typeTable->getTree();
-	TranslateItem translateItem;
+	TranslateItem translateItem( m_typeList);
 	return tree.translate< ScopeHierarchyTreeNode<TypeDefinitionList> >( translateItem);
 }
 
diff --git a/src/typedb.hpp b/src/typedb.hpp
index 3ce0d05..f5b05e2 100644
--- a/src/typedb.hpp
+++ b/src/typedb.hpp
@@ -33,7 +33,7 @@ class TypeDatabase
 public:
 	explicit TypeDatabase( std::size_t initmemsize = 1<<26)
 		:m_memblock(std::max((initmemsize/8) *8,(std::size_t)1024)),m_memory()
-		,m_objidMap(),m_objAr(),m_typeTable(),m_reduTable(),m_identMap(),m_parameterMap(),m_typerecMap()
+		,m_objidMap(),m_objAr(),m_typeTable(),m_reduTable(),m_identMap(),m_parameterMap(),m_typerecMap(),m_typeList()
 	{
 		m_memory.reset( new Memory( m_memblock.ptr, m_memblock.size));
 
@@ -411,10 +411,10 @@ public:
 
 private:
 	bool compareParameterSignature( const TypeConstructorPairList& parameter, int param2, int paramlen2) const noexcept;
-	int findTypeWithSignature( int typerecidx, const TypeConstructorPairList& parameter, int& lastIndex) const noexcept;
+	int findTypeWithSignature( int typelist, const TypeConstructorPairList& parameter, int& lastIndex) const noexcept;
 	bool compareParameterSignature( const TypeList& parameter, int param2, int paramlen2) const noexcept;
-	int findTypeWithSignature( int typerecidx, const TypeList& parameter) const noexcept;
-	void collectResultItems( std::pmr::vector<int>& items, int typerecidx) const;
+	int findTypeWithSignature( int typelist, const TypeList& parameter) const noexcept;
+	void collectResultItems( std::pmr::vector<int>& items, int typelist) const;
 	std::string reductionsToString( const std::pmr::vector<TypeConstructorPair>& reductions) const;
 	std::string deriveResultToString( const DeriveResult& res) const;
 	std::string resolveResultToString( const ResolveResult& res) const;
@@ -508,13 +508,23 @@ private:
 		int constructor;
 		short parameterlen;
 		int parameter;
-		int next;
 		TypeDef inv;
 
 		TypeRecord( const TypeRecord& o)
-			:scope(o.scope),constructor(o.constructor),parameterlen(o.parameterlen),parameter(o.parameter),next(o.next),inv(o.inv){}
+			:scope(o.scope),constructor(o.constructor),parameterlen(o.parameterlen),parameter(o.parameter),inv(o.inv){}
 		TypeRecord( int constructor_, const Scope scope_, int parameter_, short parameterlen_, const TypeDef& inv_)
-			:scope(scope_),constructor(constructor_),parameterlen(parameterlen_),parameter(parameter_),next(0),inv(inv_){}
+			:scope(scope_),constructor(constructor_),parameterlen(parameterlen_),parameter(parameter_),inv(inv_){}
+	};
+
+	struct TypeListElement
+	{
+		int type;					//< handle of the type
+		int next;					//< index of the next type with the same context type and name in the same scope or 0
+
+		explicit TypeListElement( int type_)
+			:type(type_),next(0){}
+		TypeListElement( const TypeListElement& o)
+			:type(o.type),next(o.next){}
 	};
 
 	MemoryBlock m_memblock;				//< memory block used first by m_memory
@@ -526,6 +536,7 @@ private:
 	std::unique_ptr<IdentMap> m_identMap;		//< identifier string to integer map
 	std::vector<TypeConstructorPair> m_parameterMap;//< map index to parameter arrays
 	std::vector<TypeRecord> m_typerecMap;		//< type definition structures
+	std::vector<TypeListElement> m_typeList;	//< lists of types referenced by m_typeTable
 };
 
 }//namespace
-- 
2.43.0


From 26b3de79f819c22d655f0c94c3e67396c266c794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 11/56] fix: typedb:scope leaves the current scope untouched
 when its step argument is rejected

---
 src/lualib_mewa.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 2275ac5..d4d1d0d 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -555,8 +555,9 @@ static int mewa_typedb_scope( lua_State* ls)
 		mewa::Scope::Step rt_step = td->curStep;
 		if (nargs >= 2)
 		{
-			td->curScope = mewa::lua::getArgumentAsScope( functionName, ls, 2);
-			td->curStep = (nargs >= 3) ? mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, 3) : (td->curScope.end()-1);
+			mewa::Scope newScope = mewa::lua::getArgumentAsScope( functionName, ls, 2);
+			td->curStep = (nargs >= 3) ? mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, 3) : (newScope.end()-1);
+			td->curScope = newScope;
 		}
 		mewa::lua::pushScope( ls, functionName, rt_scope);
 		lua_pushinteger( ls, rt_step);
-- 
2.43.0


From 7416f72d34d9a7bbedd2a9f20459d574f0c7cb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 12/56] fix: language description (-l) of grammars with block
 comments and with decorators containing both quotes

---
 src/automaton_parser.cpp     | 13 ++++++++-----
 src/languagedef_tostring.cpp | 36 ++++++++++++------------------------
 2 files changed, 20 insertions(+), 29 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index da02090..b11d51e 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -757,6 +757,7 @@ static std::vector<std::string> splitLines( char const* str, std::size_t sz)
 			--nn;
 		}
 		rt.emplace_back( start, nn);
+		if (str < end) ++str; //skip end of line
 	}
 	while (!rt.empty() && rt.back().empty())
 	{
@@ -825,9 +826,10 @@ LanguageDecoratorMap mewa::parseLanguageDecoratorMap( const std::string& source)
 		{
 			line = scanner.line();
 			start += start[0] == '#' ? 1:2;
-			if (scanner.scan( "\n"))
+			char const* end = std::strchr( start, '\n');
+			if (end && scanner.scan( "\n"))
 			{
-				comment.emplace_back( start, scanner.current() - start - 1);
+				comment.emplace_back( start, end - start);
 			}
 			else
 			{
@@ -839,15 +841,16 @@ LanguageDecoratorMap mewa::parseLanguageDecoratorMap( const std::string& source)
 		{
 			line = scanner.line();
 			start += 2;
-			if (scanner.scan( "*/"))
+			char const* end = std::strstr( start, "*/");
+			if (end && scanner.scan( "*/"))
 			{
-				comment = splitLines( start, scanner.current() - start);
+				comment = splitLines( start, end - start);
 			}
 			else
 			{
 				throw Error( Error::UnexpectedEofInGrammarDef);
 			}
-			symlen = 1;
+			symlen = 0;
 		}
 		else
 		{
diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index 50904dc..db8e903 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -34,33 +34,21 @@ static std::string escapeString( const std::string& str)
 
 void mewa::printString( std::ostream& outstream, const std::string& str)
 {
-	char const* sqpos = std::strchr( str.c_str(), '\'');
-	char const* dqpos = std::strchr( str.c_str(), '\"');
-	if (sqpos && dqpos)
+	const bool hasSingleQuote = str.find( '\'') != std::string::npos;
+	const bool hasDoubleQuote = str.find( '\"') != std::string::npos;
+	if (hasDoubleQuote && !hasSingleQuote)
 	{
-		sqpos = 0;
-		dqpos = 0;
-		char const* si = str.c_str();
-		for (; si; ++si)
-		{
-			if (*si == '\\')
-			{
-				++si;
-			}
-			else if (*si == '\'')
-			{
-				sqpos = si;
-			}
-			else if (*si == '\"')
-			{
-				dqpos = si;
-			}
-		}
+		outstream << "\'" << escapeString( str) << "\'";
 	}
-	if (dqpos)
+	else if (hasDoubleQuote)
 	{
-		if (sqpos) throw Error( Error::EscapeQuoteErrorInString, str);
-		outstream << "\'" << escapeString( str) << "\'";
+		std::string escaped;
+		for (char ch : escapeString( str))
+		{
+			if (ch == '\"') escaped.push_back( '\\');
+			escaped.push_back( ch);
+		}
+		outstream << "\"" << escaped << "\"";
 	}
 	else
 	{
-- 
2.43.0


From 37ac270cb209fbbfc999fea1c7c8bffbfdc96080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 13/56] fix: mewa.tostring shows holes in arrays and escapes
 double quotes

---
 src/lua_serialize.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index bf9e705..0d3bbe0 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -10,6 +10,7 @@
 /// \brief Serialization of lua data structures
 /// \file "lua_serialize.hpp"
 #include "lua_serialize.hpp"
+#include "error.hpp"
 #include <vector>
 #include <iostream>
 #include <sstream>
@@ -125,6 +126,7 @@ struct LuaTableKey
 
 static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth)
 {
+	if (!lua_checkstack( ls, 8)) throw Error( Error::LuaStackOutOfMemory, "serialize");
 	std::vector<LuaTableKey> keyvec;
 	keyvec.reserve( 1024);
 	bool hasNameKeys = false;
@@ -161,8 +163,8 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 			hasNameKeys = true;
 		}
 		else if (rowcnt
-			&& (int)(std::get<double>(keyvec[0].value) + std::numeric_limits<double>::epsilon()*4) != 1
-			&& (int)(std::get<double>(keyvec.back().value) + std::numeric_limits<double>::epsilon()*4) != rowcnt)
+			&& ((int)(std::get<double>(keyvec[0].value) + std::numeric_limits<double>::epsilon()*4) != 1
+			|| (int)(std::get<double>(keyvec.back().value) + std::numeric_limits<double>::epsilon()*4) != rowcnt))
 		{
 			hasNameKeys = true;
 		}
@@ -235,9 +237,9 @@ static std::string encodeCString( const char* str)
 				rt.append( buf);
 			}
 		}
-		else if (ch == '\\')
+		else if (ch == '\\' || ch == '\"')
 		{
-			rt.push_back( ch);
+			rt.push_back( '\\');
 			rt.push_back( ch);
 		}
 		else
-- 
2.43.0


From f6d6564637ac14d9660686bb230ec59c2cfeadde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 14/56] fix: calls of the root nodes do not leave values on the
 Lua stack

---
 src/lua_run_compiler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index 202023b..2ee69de 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -332,6 +332,7 @@ static int lua_pcall_errorhandler( lua_State* ls)
 static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbgout, int options_index)
 {
 	if (!lua_istable( ls, li)) throw mewa::Error( mewa::Error::BadElementOnCompilerStack, mewa::string_format( "%s line %d", __FILE__, (int)__LINE__));
+	if (!lua_checkstack( ls, 10)) throw mewa::Error( mewa::Error::LuaStackOutOfMemory, "compiler");
 	lua_pushcfunction( ls, &lua_pcall_errorhandler);		// STK: [EHND] 
 	lua_pushvalue( ls, li);						// STK: [EHND] [NODE]
 	lua_pushliteral( ls, "call");					// STK: [EHND] [NODE] "call"
@@ -407,7 +408,7 @@ static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbg
 			std::string resstr( mewa::luaToString( ls, -1, true/*formatted*/, 0/*no maximum depth*/));
 			printDebug( dbgout, "%s\n", resstr.c_str());
 		}
-		lua_pop( ls, 1);					// STK: 
+		lua_pop( ls, 4);					// STK: 
 	}
 }
 
-- 
2.43.0


From ddb40789a4ec63d6a3ab408e7f9072f1f8d6ba6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 15/56] fix: compiler:run starts with empty output and restores
 print and debug when it fails

---
 src/lualib_mewa.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index d4d1d0d..6f2e0eb 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -449,6 +449,10 @@ static int mewa_compiler_run( lua_State* ls)
 				if (!cp->debugFileHandle) throw mewa::Error( (mewa::Error::Code) errno, debugFileName);
 			}
 		}
+		// Forget the output of a previous run:
+		cp->outputBuffer.clear();
+		cp->outputSectionMap.clear();
+
 		lua_getglobal( ls, "_G");		// STK: table=_G
 		lua_pushliteral( ls, "print");		// STK: table=_G, key=print
 		lua_pushliteral( ls, "print");		// STK: table=_G, key=print, key=print
@@ -462,8 +466,11 @@ static int mewa_compiler_run( lua_State* ls)
 		luaL_setfuncs( ls, g_printlib, 1/*number of closure elements*/);
 		lua_pop( ls, 1);
 
-		mewa::luaRunCompiler( ls, cp->automaton, options_index, sourceptr, cp->callTableName.buf, cp->debugFileHandle);
+		int redirected_top = lua_gettop( ls);
+		try
 		{
+			mewa::luaRunCompiler( ls, cp->automaton, options_index, sourceptr, cp->callTableName.buf, cp->debugFileHandle);
+
 			std::string triple = mewa::fileBaseName( targetfn);
 
 			// Map output with target template:
@@ -484,6 +491,15 @@ static int mewa_compiler_run( lua_State* ls)
 				mewa::writeFile( std::string(outputfn), output);
 			}
 		}
+		catch (...)
+		{
+			// Restore the print functions also if the run failed:
+			lua_settop( ls, redirected_top);
+			lua_settable( ls, -5);
+			lua_settable( ls, -3);
+			cp->closeOutput();
+			throw;
+		}
 
 		// Restore old print function that has been left on the stack:
 					//STK: table=_G, key=print, value=function key=debug, value=function
-- 
2.43.0


From 03a7ac025050942165bf33811e951eadc9f98f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 16/56] fix: tokens and INDENTL declared after productions with
 keywords get the ids the generated table is loaded with

---
 src/automaton_parser.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index b11d51e..79c47f6 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -194,6 +194,10 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 		std::string_view patternstr;
 		std::string_view cmdname;
 		std::vector<std::string_view> cmdargs;
+		std::vector<std::string_view> keywords;
+		std::vector<std::string_view> indentl;
+		int indentl_line = 0;
+		int indentl_tabsize = 0;
 		std::multimap<std::string_view, std::size_t> prodmap;
 		std::map<std::string_view, int> nonTerminalIdMap;
 		std::set<std::string_view> usedSet;
@@ -425,7 +429,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 					}
 					else if (state == ParseProductionElement)
 					{
-						if (!rt.lexer.lexemId( lexem.value())) rt.lexer.defineLexem( lexem.value());
+						keywords.push_back( lexem.value());
 						rt.prodlist.back().right.push_back( ProductionNodeDef( lexem.value(), false/*not a symbol, raw string implicitly defined*/));
 					}
 					else if (state == ParseCallArg)
@@ -573,7 +577,10 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 								throw Error( Error::CommandNumberOfArgumentsInGrammarDef, cmdname);
 							}
 							int indent = convertStringToInt( cmdargs[3]);
-							rt.lexer.defineIndentLexems( lexem.line(), cmdargs[0], cmdargs[1], cmdargs[2], indent);
+							if (!indentl.empty()) throw Error( Error::ConflictingCommandInGrammarDef);
+							indentl.assign( cmdargs.begin(), cmdargs.end());
+							indentl_line = lexem.line();
+							indentl_tabsize = indent;
 						}
 						else
 						{
@@ -617,6 +624,17 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 		}
 		if (state != Init) throw Error( Error::UnexpectedEofInGrammarDef);
 
+		// Define the lexems in the order the loader of the generated table defines them (tokens, indentation, keywords),
+		//	so that their ids do not depend on the order of the declarations in the grammar:
+		if (!indentl.empty())
+		{
+			rt.lexer.defineIndentLexems( indentl_line, indentl[0], indentl[1], indentl[2], indentl_tabsize);
+		}
+		for (auto const& keyword : keywords)
+		{
+			if (!rt.lexer.lexemId( keyword)) rt.lexer.defineLexem( keyword);
+		}
+
 		// [2] Label grammar production elements:
 		for (auto& prod : rt.prodlist)
 		{
-- 
2.43.0


From c5e03ed06fe3775c269f38caa8d708c1493df84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 17/56] fix: child iterator of the scope trees ends when a node
 has more than one child

---
 src/lualib_mewa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 6f2e0eb..1dc16ef 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -1184,7 +1184,7 @@ struct LuaTreeMetaMethods
 			luaL_getmetatable( ls, UD::metatableName());
 			lua_setmetatable( ls, -2);
 
-			iter = (*ud->tree)[ ud->nodeidx].next();
+			iter = (*ud->tree)[ iter].next();
 			lua_pushinteger( ls, iter);
 			lua_replace( ls, lua_upvalueindex(2));
 		}
-- 
2.43.0


From 56d11436b1035cda3409ddf2964495e3f29f94c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 18/56] fix: negative integer arguments of the Lua API are not
 read as the next higher integer

---
 src/lua_parameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 3d5b316..5edbc08 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -110,7 +110,7 @@ long mewa::lua::getArgumentAsInteger( const char* functionName, lua_State* ls, i
 	double val = lua_tonumber( ls, li);
 	if (val - std::floor( val) < std::numeric_limits<double>::epsilon()*4)
 	{
-		return (long)(val + std::numeric_limits<double>::epsilon()*4);
+		return (long)std::floor( val);
 	}
 	else
 	{
-- 
2.43.0


From 4bf95a8e0b4f5f36c2aba42717b2965d544693bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 19/56] fix: string arguments in single quotes containing
 double quotes are written as valid Lua

---
 src/automaton_tostring.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/automaton_tostring.cpp b/src/automaton_tostring.cpp
index 9ee3cc7..06ccb9f 100644
--- a/src/automaton_tostring.cpp
+++ b/src/automaton_tostring.cpp
@@ -153,7 +153,15 @@ static void printCallTable( std::ostream& outstream, const char* tablename, cons
 				outstream << "name=";
 				printString( outstream, call.function() + " " + call.arg());
 				outstream << ", proc=" << g_typeSystemModulePrefix << call.function();
-				outstream << ", obj=\"" << call.arg() << "\"";
+				// ... a string in single quotes may contain double quotes, one in double quotes may contain single quotes:
+				if (call.arg().find( '"') == std::string::npos)
+				{
+					outstream << ", obj=\"" << call.arg() << "\"";
+				}
+				else
+				{
+					outstream << ", obj=\'" << call.arg() << "\'";
+				}
 				break;
 			case Automaton::Call::ReferenceArg:
 				outstream << "name=";
-- 
2.43.0


From 1363c0b4c6bda635393723eebe1fd3ffe9fa4322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:54 +0000
Subject: [PATCH 20/56] fix: mewa.tostring writes keys and strings with special
 characters as valid Lua

---
 src/lua_serialize.cpp | 47 +++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index 0d3bbe0..e3bf129 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -12,6 +12,8 @@
 #include "lua_serialize.hpp"
 #include "error.hpp"
 #include <vector>
+#include <set>
+#include <string_view>
 #include <iostream>
 #include <sstream>
 #include <variant>
@@ -31,6 +33,7 @@ extern "C" {
 using namespace mewa;
 
 static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth);
+static std::string encodeCString( const std::string_view& str);
 
 static void serializeLuaNumber( std::ostream& out, lua_State* ls, int li)
 {
@@ -50,9 +53,9 @@ struct LuaTableKey
 {
 	enum Type {NumberType,StringType};
 	Type type;
-	std::variant<double,const char*> value;
+	std::variant<double,std::string_view> value;
 
-	LuaTableKey( const char* value_)
+	LuaTableKey( const std::string_view& value_)
 		:type(StringType),value(value_){}
 	LuaTableKey( const double value_)
 		:type(NumberType),value(value_){}
@@ -66,7 +69,7 @@ struct LuaTableKey
 			switch (type)
 			{
 				case NumberType: return std::get<double>(value) < std::get<double>(o.value);
-				case StringType: return std::strcmp( std::get<const char*>(value), std::get<const char*>(o.value)) < 0;
+				case StringType: return std::get<std::string_view>(value) < std::get<std::string_view>(o.value);
 			}
 		}
 		return (int)type < (int)o.type;
@@ -80,7 +83,7 @@ struct LuaTableKey
 				lua_pushnumber( ls, std::get<double>(value));
 				break;
 			case StringType:
-				lua_pushstring( ls, std::get<const char*>(value));
+				lua_pushlstring( ls, std::get<std::string_view>(value).data(), std::get<std::string_view>(value).size());
 				break;
 		}
 	}
@@ -105,11 +108,11 @@ struct LuaTableKey
 			case StringType:
 				if (isIdentifier())
 				{
-					out << std::get<const char*>(value);
+					out << std::get<std::string_view>(value);
 				}
 				else
 				{
-					out << "[\"" << std::get<const char*>(value) << "\"]";
+					out << "[\"" << encodeCString( std::get<std::string_view>(value)) << "\"]";
 				}
 				break;
 		}
@@ -117,10 +120,16 @@ struct LuaTableKey
 
 	bool isIdentifier() const noexcept
 	{
-		char const* si = std::get<const char*>(value);
-		if (*si >= '0' && *si <= '9') return false;
-		for (; *si && (((*si|32) >= 'a' && (*si|32) <= 'z') || (*si >= '0' && *si <= '9') || *si == '_'); ++si){}
-		return !*si;
+		static const std::set<std::string_view> reserved{
+			"and","break","do","else","elseif","end","false","for","function","goto","if","in",
+			"local","nil","not","or","repeat","return","then","true","until","while"};
+		auto const& name = std::get<std::string_view>(value);
+		if (name.empty() || (name[0] >= '0' && name[0] <= '9') || reserved.find( name) != reserved.end()) return false;
+		for (char ch : name)
+		{
+			if (!(((ch|32) >= 'a' && (ch|32) <= 'z') || (ch >= '0' && ch <= '9') || ch == '_')) return false;
+		}
+		return true;
 	}
 };
 
@@ -139,8 +148,9 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 	{
 		if (lua_type( ls, -2) == LUA_TSTRING)
 		{
-			const char* sptr = lua_tostring( ls, -2);
-			keyvec.push_back( sptr);
+			std::size_t len;
+			const char* sptr = lua_tolstring( ls, -2, &len);
+			keyvec.push_back( std::string_view( sptr, len));
 			hasNameKeys = true;
 		}
 		else if (lua_type( ls, -2) == LUA_TNUMBER)
@@ -204,14 +214,13 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 	lua_pop( ls, 1); // ... pop table and keyvec
 }
 
-static std::string encodeCString( const char* str)
+static std::string encodeCString( const std::string_view& str)
 {
 	const char* HEX = "0123456789ABCDEF";
 	std::string rt;
-	char const* si = str;
-	for (; *si; ++si)
+	for (char elem : str)
 	{
-		unsigned char ch = (unsigned char)*si;
+		unsigned char ch = (unsigned char)elem;
 		if (ch < 32)
 		{
 			if (ch == '\t')
@@ -265,8 +274,12 @@ static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const s
 			out << (lua_toboolean( ls, li) ? "true" : "false");
 			break;
 		case LUA_TSTRING:
-			out << '"' << encodeCString( lua_tostring( ls, li)) << '"';
+		{
+			std::size_t len;
+			const char* sptr = lua_tolstring( ls, li, &len);
+			out << '"' << encodeCString( std::string_view( sptr, len)) << '"';
 			break;
+		}
 		case LUA_TTABLE:
 			if (depth)
 			{
-- 
2.43.0


From 14f8ba2baaffbb3d780d48374a6d3d297698c14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:05 +0000
Subject: [PATCH 21/56] fix: mewa.tostring wrote numbers and keys beyond the
 integer range as others and dropped digits

---
 src/lua_serialize.cpp | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index e3bf129..0089464 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -19,6 +19,8 @@
 #include <variant>
 #include <limits>
 #include <cmath>
+#include <cstdint>
+#include <cstdio>
 #include <algorithm>
 
 extern "C" {
@@ -35,17 +37,25 @@ using namespace mewa;
 static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth);
 static std::string encodeCString( const std::string_view& str);
 
-static void serializeLuaNumber( std::ostream& out, lua_State* ls, int li)
+static void serializeNumber( std::ostream& out, double num)
 {
-	double num;
-	num = lua_tonumber( ls, li);
-	if (num - std::floor( num) < std::numeric_limits<double>::epsilon()*4)
+	if (std::fabs( num) < 9e15 && num == std::floor( num))
 	{
-		out << lua_tointeger( ls, li);
+		out << (int64_t)std::floor( num);
+	}
+	else if (std::isnan( num))
+	{
+		out << "(0/0)";
+	}
+	else if (std::isinf( num))
+	{
+		out << (num < 0 ? "(-1/0)" : "(1/0)");
 	}
 	else
 	{
-		out << num;
+		char buf[ 64];
+		std::snprintf( buf, sizeof(buf), "%.14g", num); // the format Lua uses for numbers
+		out << buf;
 	}
 }
 
@@ -94,15 +104,9 @@ struct LuaTableKey
 		{
 			case NumberType:
 			{
-				double num = std::get<double>(value);
-				if (num - std::floor( num) < std::numeric_limits<double>::epsilon()*4)
-				{
-					out << "[" << (int)(num + std::numeric_limits<double>::epsilon()*4) << "]";
-				}
-				else
-				{
-					out << "[" << std::get<double>(value) << "]";
-				}
+				out << "[";
+				serializeNumber( out, std::get<double>(value));
+				out << "]";
 				break;
 			}
 			case StringType:
@@ -268,7 +272,7 @@ static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const s
 			out << "nil";
 			break;
 		case LUA_TNUMBER:
-			serializeLuaNumber( out, ls, li);
+			serializeNumber( out, lua_tonumber( ls, li));
 			break;
 		case LUA_TBOOLEAN:
 			out << (lua_toboolean( ls, li) ? "true" : "false");
-- 
2.43.0


From 26f7ddc05263b22b107367813223fdaff6b4f086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:54 +0000
Subject: [PATCH 22/56] fix: numbers out of range in the grammar (priorities
 above 65535, numbers beyond int) were taken as others

---
 src/automaton_parser.cpp  | 3 ++-
 src/automaton_structs.hpp | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index 79c47f6..2fa4a03 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -16,6 +16,7 @@
 #include "utf8.hpp"
 #include <map>
 #include <algorithm>
+#include <limits>
 #include <type_traits>
 
 using namespace mewa;
@@ -93,8 +94,8 @@ static int convertStringToInt( const std::string_view& str)
 		char ch = str[ si];
 		if (ch >= '0' && ch <= '9')
 		{
+			if (rt > (std::numeric_limits<int>::max() - 9) / 10) throw Error( Error::ValueOutOfRangeInGrammarDef, str);
 			rt = rt * 10 + (ch - '0');
-			if (rt < 0) throw Error( Error::ValueOutOfRangeInGrammarDef, str);
 		}
 		else
 		{
diff --git a/src/automaton_structs.hpp b/src/automaton_structs.hpp
index a059dab..0195ccd 100644
--- a/src/automaton_structs.hpp
+++ b/src/automaton_structs.hpp
@@ -110,10 +110,10 @@ typedef std::vector<ProductionNodeDef> ProductionNodeDefList;
 
 enum class Assoziativity :short {Undefined, Left, Right};
 struct Priority {
-	short value;
+	int value;
 	Assoziativity assoziativity;
 
-	Priority( short value_=0, Assoziativity assoziativity_ = Assoziativity::Undefined) noexcept
+	Priority( int value_=0, Assoziativity assoziativity_ = Assoziativity::Undefined) noexcept
 		:value(value_),assoziativity(assoziativity_){}
 	Priority( const Priority& o) noexcept
 		:value(o.value),assoziativity(o.assoziativity){}
-- 
2.43.0


From b7c58d5a3a26a036ec033c03e9ca4c79410fc37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:54 +0000
Subject: [PATCH 23/56] fix: a keyword with the name of a declared lexeme or
 indentation token was silently taken as that token

---
 src/automaton_parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index 2fa4a03..a1c96ae 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -633,7 +633,9 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 		}
 		for (auto const& keyword : keywords)
 		{
-			if (!rt.lexer.lexemId( keyword)) rt.lexer.defineLexem( keyword);
+			int kwid = rt.lexer.lexemId( keyword);
+			if (!kwid) rt.lexer.defineLexem( keyword);
+			else if (!rt.lexer.isKeyword( kwid)) throw Error( Error::KeywordDefinedTwiceInLexer, keyword);
 		}
 
 		// [2] Label grammar production elements:
-- 
2.43.0


From 7e21f324428d691acac63406ab60ff2702203cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:05 +0000
Subject: [PATCH 24/56] fix: mewa -l never ended on a grammar whose last line
 is a comment without end of line

---
 src/automaton_parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index a1c96ae..aa6792f 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -851,12 +851,13 @@ LanguageDecoratorMap mewa::parseLanguageDecoratorMap( const std::string& source)
 			if (end && scanner.scan( "\n"))
 			{
 				comment.emplace_back( start, end - start);
+				symlen = 0;
 			}
 			else
 			{
 				comment.emplace_back( start);
+				symlen = std::strlen( scanner.next());
 			}
-			symlen = 0;
 		}
 		else if (start[0] == '/' && start[1] == '*')
 		{
-- 
2.43.0


From 9f8a5012932d7d949028b98084dba2f8bf9fd55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 25/56] fix: mewa -l wrote attributes whose names are reserved
 words of Lua or start with a digit as invalid Lua

---
 src/languagedef_tostring.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index db8e903..5d4be9a 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -11,6 +11,7 @@
 /// \brief Function to print Lexem definitions as Lua table
 /// \file "languagedef_tostring.cpp"
 #include "languagedef_tostring.hpp"
+#include <set>
 
 using namespace mewa;
 
@@ -80,12 +81,20 @@ static void printArgument( std::ostream& outstream, const char* type, int arg)
 	outstream << arg;
 }
 
+static std::string tableKey( const std::string& name)
+{
+	static const std::set<std::string_view> reserved{
+		"and","break","do","else","elseif","end","false","for","function","goto","if","in",
+		"local","nil","not","or","repeat","return","then","true","until","while"};
+	return (name[0] >= '0' && name[0] <= '9') || reserved.find( name) != reserved.end() ? "[\"" + name + "\"]" : name;
+}
+
 static void printDecorators( std::ostream& outstream, const std::vector<LanguageDecorator>& decorators)
 {
 	for (auto const& dc : decorators)
 	{
 		outstream << ",";
-		printArgument( outstream, dc.name.c_str(), dc.content);
+		printArgument( outstream, tableKey( dc.name).c_str(), dc.content);
 	}
 }
 
-- 
2.43.0


From 316606311afc5deb1ac17d655f4563a05706818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 26/56] fix: mewa -l wrote strings with carriage returns, as
 attributes in a grammar with CRLF line ends, as invalid Lua

---
 src/automaton_parser.cpp     | 1 +
 src/languagedef_tostring.cpp | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index aa6792f..ad50973 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -850,6 +850,7 @@ LanguageDecoratorMap mewa::parseLanguageDecoratorMap( const std::string& source)
 			char const* end = std::strchr( start, '\n');
 			if (end && scanner.scan( "\n"))
 			{
+				if (end > start && end[-1] == '\r') --end;
 				comment.emplace_back( start, end - start);
 				symlen = 0;
 			}
diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index 5d4be9a..c3760f5 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -25,6 +25,10 @@ static std::string escapeString( const std::string& str)
 		{
 			rt.append( "\\\\");
 		}
+		else if (*si == '\r')
+		{
+			rt.append( "\\r");
+		}
 		else
 		{
 			rt.push_back( *si);
-- 
2.43.0


From b12d4bdf6672a67661d6c9a53abd8ab1040152c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:31 +0000
Subject: [PATCH 27/56] fix: mewa -l lost the attributes of declarations
 spanning several lines

---
 src/automaton_parser.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index ad50973..bf730a9 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -208,6 +208,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 		std::string call_function;
 		std::string call_arg;
 		int selectidx = 0;
+		int declline = 0; //... line where the current declaration starts
 
 		lexem = grammarLexer.next( scanner);
 		for (; !lexem.empty(); lexem = grammarLexer.next( scanner))
@@ -222,6 +223,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 				case GrammarLexer::IDENT:
 					if (state == Init)
 					{
+						declline = lexem.line();
 						rulename = lexem.value();
 						patternstr.remove_suffix( patternstr.size());
 						selectidx = 0;
@@ -473,6 +475,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 				case GrammarLexer::PERCENT:
 					if (state == Init)
 					{
+						declline = lexem.line();
 						cmdname.remove_suffix( cmdname.size());
 						cmdargs.clear();
 						state = ParseLexerCommand;
@@ -502,7 +505,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 					else if (state == ParseProductionAttributes || state == ParseAssign)
 					{
 						prodmap.insert( std::pair<std::string_view, std::size_t>( rulename, rt.prodlist.size()));
-						rt.prodlist.push_back( ProductionDef( lexem.line(), rulename, ProductionNodeDefList(), priority));
+						rt.prodlist.push_back( ProductionDef( declline, rulename, ProductionNodeDefList(), priority));
 						if (nonTerminalIdMap.insert( std::pair<std::string_view, int>( rulename, nonTerminalIdMap.size()+1)).second/*insert took place*/)
 						{
 							rt.nonterminals.push_back( std::string( rulename));
@@ -549,22 +552,22 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 						else if (caseInsensitiveEqual( cmdname, "IGNORE"))
 						{
 							if (cmdargs.size() != 1) throw Error( Error::CommandNumberOfArgumentsInGrammarDef, cmdname);
-							rt.lexer.defineIgnore( lexem.line(), cmdargs[ 0]);
+							rt.lexer.defineIgnore( declline, cmdargs[ 0]);
 						}
 						else if (caseInsensitiveEqual( cmdname, "BAD"))
 						{
 							if (cmdargs.size() != 1) throw Error( Error::CommandNumberOfArgumentsInGrammarDef, cmdname);
-							rt.lexer.defineBadLexem( lexem.line(), cmdargs[ 0]);
+							rt.lexer.defineBadLexem( declline, cmdargs[ 0]);
 						}
 						else if (caseInsensitiveEqual( cmdname, "COMMENT"))
 						{
 							if (cmdargs.size() == 1)
 							{
-								rt.lexer.defineEolnComment( lexem.line(), cmdargs[ 0]);
+								rt.lexer.defineEolnComment( declline, cmdargs[ 0]);
 							}
 							else if (cmdargs.size() == 2)
 							{
-								rt.lexer.defineBracketComment( lexem.line(), cmdargs[ 0], cmdargs[ 1]);
+								rt.lexer.defineBracketComment( declline, cmdargs[ 0], cmdargs[ 1]);
 							}
 							else
 							{
@@ -580,7 +583,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 							int indent = convertStringToInt( cmdargs[3]);
 							if (!indentl.empty()) throw Error( Error::ConflictingCommandInGrammarDef);
 							indentl.assign( cmdargs.begin(), cmdargs.end());
-							indentl_line = lexem.line();
+							indentl_line = declline;
 							indentl_tabsize = indent;
 						}
 						else
@@ -590,11 +593,11 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 					}
 					else if (state == ParsePatternSelect)
 					{
-						rt.lexer.defineLexem( lexem.line(), rulename, patternstr);
+						rt.lexer.defineLexem( declline, rulename, patternstr);
 					}
 					else if (state == ParseEndOfLexemDef)
 					{
-						rt.lexer.defineLexem( lexem.line(), rulename, patternstr, selectidx);
+						rt.lexer.defineLexem( declline, rulename, patternstr, selectidx);
 					}
 					else if (state == ParseProductionElement || state == ParseEndOfProduction || state == ParseCall)
 					{
-- 
2.43.0


From 81bbc68616db1072389c2c405845023d7384f1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:46 +0000
Subject: [PATCH 28/56] fix: quotes and backslashes in %LANGUAGE, %TYPESYSTEM
 and %CMDLINE made the generated table invalid Lua

---
 src/automaton_tostring.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/automaton_tostring.cpp b/src/automaton_tostring.cpp
index 06ccb9f..ab33733 100644
--- a/src/automaton_tostring.cpp
+++ b/src/automaton_tostring.cpp
@@ -190,15 +190,21 @@ std::string Automaton::tostring() const
 	outstream << "\tmewa = \"" << MEWA_VERSION_STRING << "\",\n";
 	if (!language().empty())
 	{
-		outstream << "\tlanguage = \"" << language() << "\",\n";
+		outstream << "\tlanguage = ";
+		printString( outstream, language());
+		outstream << ",\n";
 	}
 	if (!typesystem().empty())
 	{
-		outstream << "\ttypesystem = \"" << typesystem() << "\",\n";
+		outstream << "\ttypesystem = ";
+		printString( outstream, typesystem());
+		outstream << ",\n";
 	}
 	if (!cmdline().empty())
 	{
-		outstream << "\tcmdline = \"" << cmdline() << "\",\n";
+		outstream << "\tcmdline = ";
+		printString( outstream, cmdline());
+		outstream << ",\n";
 	}
 	printLexer( outstream, "lexer", lexer(), true/*sep*/);
 	printStringArray( outstream, "nonterminal", m_nonterminals, true/*sep*/);
-- 
2.43.0


From 246cf2c9aa5d69deb2505bacc4704fc92a8ebc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:32 +0000
Subject: [PATCH 29/56] fix: mewa -l wrote string arguments of calls with
 double quotes in double quotes

---
 src/automaton.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/automaton.cpp b/src/automaton.cpp
index 600f245..b9013e0 100644
--- a/src/automaton.cpp
+++ b/src/automaton.cpp
@@ -1259,11 +1259,15 @@ std::string Automaton::Call::tostring() const
 		case Automaton::Call::NoArg:
 			break;
 		case Automaton::Call::StringArg:
+		{
+			// ... a string in single quotes may contain double quotes, one in double quotes may contain single quotes:
+			char quote = m_arg.find( '"') == std::string::npos ? '"' : '\'';
 			rt.push_back( ' ');
-			rt.push_back( '"');
+			rt.push_back( quote);
 			rt.append( m_arg);
-			rt.push_back( '"');
+			rt.push_back( quote);
 			break;
+		}
 		case Automaton::Call::ReferenceArg:
 			rt.push_back( ' ');
 			rt.append( m_arg);
-- 
2.43.0


From 6c1a9fbc7699f10ec166c8ae38d13e03a4d2faf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:41 +0000
Subject: [PATCH 30/56] fix: mewa -l wrote the tokens of INDENTL as lexemes
 without pattern and their names with quotes in the rule INDENTL

---
 src/languagedef_tostring.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index c3760f5..49f39ca 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -12,6 +12,7 @@
 /// \file "languagedef_tostring.cpp"
 #include "languagedef_tostring.hpp"
 #include <set>
+#include <map>
 
 using namespace mewa;
 
@@ -102,8 +103,9 @@ static void printDecorators( std::ostream& outstream, const std::vector<Language
 	}
 }
 
-static void printLexerDefinitions( std::ostream& outstream, const char* indentstr, const Lexer& lexer, const std::vector<Lexer::Definition>& defs, const LanguageDecoratorMap& decorators, int& cnt)
+static void printLexerDefinitions( std::ostream& outstream, const char* indentstr, const std::vector<Lexer::Definition>& defs, const LanguageDecoratorMap& decorators, int& cnt)
 {
+	std::map<int,std::string> indentNames;	//... names of the lexems defined with INDENTL, defined without pattern and line
 	for (auto const& def : defs)
 	{
 		switch (def.type())
@@ -121,6 +123,11 @@ static void printLexerDefinitions( std::ostream& outstream, const char* indentst
 				break;
 
 			case Lexer::Definition::NamedPatternLexem:
+				if (def.line() == 0)
+				{
+					indentNames[ def.id()] = def.name();
+					break;
+				}
 				outstream << (cnt++ ? indentstr : (indentstr+1));
 				outstream << "{";
 				printArgument( outstream, "op", "TOKEN");
@@ -185,11 +192,11 @@ static void printLexerDefinitions( std::ostream& outstream, const char* indentst
 				outstream << "{";
 				printArgument( outstream, "op", "INDENTL");
 				outstream << ",";
-				printArgument( outstream, "open", lexer.lexemName( def.openind()));
+				printArgument( outstream, "open", indentNames[ def.openind()]);
 				outstream << ",";
-				printArgument( outstream, "close", lexer.lexemName( def.closeind()));
+				printArgument( outstream, "close", indentNames[ def.closeind()]);
 				outstream << ",";
-				printArgument( outstream, "nl", lexer.lexemName( def.newline()));
+				printArgument( outstream, "nl", indentNames[ def.newline()]);
 				outstream << ",";
 				printArgument( outstream, "tabsize", def.tabsize());
 				printDecorators( outstream, decorators.get( def.line()));
@@ -269,7 +276,7 @@ std::string mewa::printLuaLanguageDefinition( const LanguageDef& langdef, const
 	out << indentstr1 << "RULES = {";
 	auto const& defs = langdef.lexer.getDefinitions();
 	int cnt = 0;
-	printLexerDefinitions( out, indentstr2, langdef.lexer, defs, decoratormap, cnt);
+	printLexerDefinitions( out, indentstr2, defs, decoratormap, cnt);
 	printProductions( out, indentstr2, langdef, decoratormap, cnt);
 	out << "\n\t}\n}\nreturn languagedef\n\n";
 	std::string rt = out.str();
-- 
2.43.0


From a602b518df6d14319dfd4dfe1418d940e7901f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:12 +0000
Subject: [PATCH 31/56] fix: an undeclared identifier with the name of a
 keyword was silently taken as that keyword

---
 src/automaton_parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index bf730a9..4d13ac1 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -658,7 +658,8 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 					auto nt = nonTerminalIdMap.find( element.name());
 					if (nt == nonTerminalIdMap.end())
 					{
-						if (!lxid) throw Error( Error::UnresolvedIdentifierInGrammarDef, element.name());
+						// ... a string of another production is no declaration of an identifier:
+						if (!lxid || (element.symbol() && rt.lexer.isKeyword( lxid))) throw Error( Error::UnresolvedIdentifierInGrammarDef, element.name());
 						element.defineAsTerminal( lxid);
 					}
 					else
-- 
2.43.0


From 21e59d7b4f1dbfd79da2d9f957335405fbfb059e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 32/56] fix: the triple of a target file name with a directory
 and no extension was read past its end

---
 src/fileio.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fileio.cpp b/src/fileio.cpp
index 9288202..5e4d17f 100644
--- a/src/fileio.cpp
+++ b/src/fileio.cpp
@@ -107,7 +107,8 @@ std::string mewa::fileBaseName( const std::string_view& fnam)
 	std::memcpy( buf, fnam.data(), nn);
 	buf[ nn] = 0;
 	char* bn = ::basename( buf);
-	std::size_t ee = std::strchr( bn, '\0')-bn;
+	nn = std::strlen( bn);
+	std::size_t ee = nn;
 	for (; ee > 0 && bn[ ee] != '.'; --ee){}
 	if (ee != 0) nn = ee;
 	return std::string( bn, nn);
-- 
2.43.0


From eca752a48713c0c1beecd144703168244eddd354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 33/56] fix: print_section was not restored after a compiler
 run, in a nested run the outer printed into the sections of the inner

---
 src/lualib_mewa.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 1dc16ef..84d74fe 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -414,7 +414,7 @@ static int mewa_compiler_run( lua_State* ls)
 	try
 	{
 		int nargs = mewa::lua::checkNofArguments( functionName, ls, 4/*minNofArgs*/, 6/*maxNofArgs*/);
-		mewa::lua::checkStack( functionName, ls, 10);
+		mewa::lua::checkStack( functionName, ls, 16);
 
 		char targetfn[ 256]; 	//... target filename
 		if (!lua_isnil( ls, 2))
@@ -460,6 +460,9 @@ static int mewa_compiler_run( lua_State* ls)
 		lua_pushliteral( ls, "debug");		// STK: table=_G, key=print, value=function key=debug
 		lua_pushliteral( ls, "debug");		// STK: table=_G, key=print, value=function key=debug key=debug
 		lua_gettable( ls, -5);			// STK: table=_G, key=print, value=function key=debug value=function
+		lua_pushliteral( ls, "print_section");	// STK: table=_G, key=print, value=function key=debug value=function key=print_section
+		lua_pushliteral( ls, "print_section");	// STK: table=_G, key=print, value=function key=debug value=function key=print_section key=print_section
+		lua_gettable( ls, -7);			// STK: table=_G, key=print, value=function key=debug value=function key=print_section value=function
 
 		lua_getglobal( ls, "_G");
 		lua_pushlightuserdata( ls, cp);
@@ -495,14 +498,16 @@ static int mewa_compiler_run( lua_State* ls)
 		{
 			// Restore the print functions also if the run failed:
 			lua_settop( ls, redirected_top);
+			lua_settable( ls, -7);
 			lua_settable( ls, -5);
 			lua_settable( ls, -3);
 			cp->closeOutput();
 			throw;
 		}
 
-		// Restore old print function that has been left on the stack:
-					//STK: table=_G, key=print, value=function key=debug, value=function
+		// Restore old print functions that have been left on the stack:
+					//STK: table=_G, key=print, value=function key=debug, value=function, key=print_section value=function
+		lua_settable( ls, -7);	//STK: table=_G, key=print, value=function key=debug, value=function
 		lua_settable( ls, -5);	//STK: table=_G, key=print, value=function
 		lua_settable( ls, -3);	//STK: table=_G
 		lua_pop( ls, 1);	//STK:
-- 
2.43.0


From 9725379c236f8bdc77c2692c018353cd04e011dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:11 +0000
Subject: [PATCH 34/56] fix: text printed with print and with print_section(
 "Code") was not written in the order printed

---
 src/lua_userdata.hpp | 4 ----
 src/lualib_mewa.cpp  | 4 +---
 2 files changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/lua_userdata.hpp b/src/lua_userdata.hpp
index 2028c1d..f296df1 100644
--- a/src/lua_userdata.hpp
+++ b/src/lua_userdata.hpp
@@ -68,8 +68,6 @@ struct mewa_compiler_userdata_t
 	mewa::Automaton automaton;
 	mewa::lua::CallTableName callTableName;
 	FILE* debugFileHandle;
-	typedef std::string OutputBuffer;
-	std::string outputBuffer;
 	typedef std::map<std::string,std::string> OutputSectionMap;
 	OutputSectionMap outputSectionMap;
 
@@ -77,7 +75,6 @@ struct mewa_compiler_userdata_t
 	{
 		debugFileHandle = nullptr;
 		new (&automaton) mewa::Automaton();
-		new (&outputBuffer) OutputBuffer();
 		new (&outputSectionMap) OutputSectionMap();
 		callTableName.init();
 	}
@@ -92,7 +89,6 @@ struct mewa_compiler_userdata_t
 
 		closeOutput();
 		automaton.~Automaton();
-		outputBuffer.~OutputBuffer();
 		outputSectionMap.~OutputSectionMap();
 	}
 	static const char* metatableName() noexcept {return MEWA_COMPILER_METATABLE_NAME;}
diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 84d74fe..bc793f0 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -218,7 +218,7 @@ static int lua_print_redirected( lua_State* ls) {
 	try
 	{
 		int nargs = lua_gettop( ls);
-		append_printbuffer( ls, 1, nargs, cp->outputBuffer);
+		append_printbuffer( ls, 1, nargs, cp->outputSectionMap[ "Code"]);
 	}
 	catch (...) {lippincottFunction( ls);}
 	return 0;
@@ -450,7 +450,6 @@ static int mewa_compiler_run( lua_State* ls)
 			}
 		}
 		// Forget the output of a previous run:
-		cp->outputBuffer.clear();
 		cp->outputSectionMap.clear();
 
 		lua_getglobal( ls, "_G");		// STK: table=_G
@@ -479,7 +478,6 @@ static int mewa_compiler_run( lua_State* ls)
 			// Map output with target template:
 			cp->outputSectionMap[ "Source"] = filename;
 			cp->outputSectionMap[ "Triple"] = triple;
-			cp->outputSectionMap[ "Code"].append( cp->outputBuffer);
 			std::string output = mewa::template_format( targetptr, '{', '}', cp->outputSectionMap);
 			if (outputfn == "stderr")
 			{
-- 
2.43.0


From 108de85c03e9aea6dc19439a457c22c7e9ca8453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:53 +0000
Subject: [PATCH 35/56] fix: a run started by a function of the same compiler
 lost the output of the enclosing run and closed its debug file

---
 src/lua_userdata.hpp | 25 +++++++++++++++++++++++++
 src/lualib_mewa.cpp  |  6 +++---
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/lua_userdata.hpp b/src/lua_userdata.hpp
index f296df1..3419089 100644
--- a/src/lua_userdata.hpp
+++ b/src/lua_userdata.hpp
@@ -91,6 +91,31 @@ struct mewa_compiler_userdata_t
 		automaton.~Automaton();
 		outputSectionMap.~OutputSectionMap();
 	}
+	// Empty output of a run, the output of an enclosing run of the same compiler is restored at its end
+	class OutputScope
+	{
+	public:
+		explicit OutputScope( mewa_compiler_userdata_t& cp_)
+			:cp(cp_),debugFileHandle(nullptr)
+		{
+			std::swap( debugFileHandle, cp.debugFileHandle);
+			outputSectionMap.swap( cp.outputSectionMap);
+		}
+		~OutputScope()
+		{
+			cp.closeOutput();
+			std::swap( debugFileHandle, cp.debugFileHandle);
+			outputSectionMap.swap( cp.outputSectionMap);
+		}
+		OutputScope( const OutputScope&) = delete;
+		OutputScope& operator=( const OutputScope&) = delete;
+
+	private:
+		mewa_compiler_userdata_t& cp;
+		FILE* debugFileHandle;
+		OutputSectionMap outputSectionMap;
+	};
+
 	static const char* metatableName() noexcept {return MEWA_COMPILER_METATABLE_NAME;}
 
 	static FILE* openFile( const char* path)
diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index bc793f0..ac7cda3 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -436,6 +436,9 @@ static int mewa_compiler_run( lua_State* ls)
 		if (targetfn[0]) targetstr_ = mewa::readFile( std::string(targetfn));
 		std::string_view targetptr = move_string_on_lua_stack( ls, std::move( targetstr_));	// STK: [COMPILER] [INPUTFILE] [SOURCE] [TARGET]
 
+		// Put aside the output of an enclosing run of this compiler:
+		mewa_compiler_userdata_t::OutputScope outputScope( *cp);
+
 		if (nargs >= 5)
 		{
 			if (!lua_isnil( ls, 5))
@@ -449,9 +452,6 @@ static int mewa_compiler_run( lua_State* ls)
 				if (!cp->debugFileHandle) throw mewa::Error( (mewa::Error::Code) errno, debugFileName);
 			}
 		}
-		// Forget the output of a previous run:
-		cp->outputSectionMap.clear();
-
 		lua_getglobal( ls, "_G");		// STK: table=_G
 		lua_pushliteral( ls, "print");		// STK: table=_G, key=print
 		lua_pushliteral( ls, "print");		// STK: table=_G, key=print, key=print
-- 
2.43.0


From a30941cc69f068b795e7bb38c53caed52b4b2244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:56 +0000
Subject: [PATCH 36/56] fix: empty braces in a target template were dropped
 from the output

---
 src/strings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strings.cpp b/src/strings.cpp
index 5351b97..26c1dd4 100644
--- a/src/strings.cpp
+++ b/src/strings.cpp
@@ -105,7 +105,7 @@ std::string mewa::template_format( const std::string_view& templatstr, char sb,
 				{
 					for (++ki; ki != ke && isAlphaNum(*ki); ++ki){}
 				}
-				if (ki == ke)
+				if (ki == ke && ki != keystart)
 				{
 					rt.append( ti, ts-ti);
 					ti = te + 1;
-- 
2.43.0


From 7f3aedabaf42eb9a022ffcd2dcf06d9cefb204f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 37/56] fix: a grammar with too many productions was rejected
 with the error of too many states

---
 src/automaton.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/automaton.cpp b/src/automaton.cpp
index b9013e0..1a8d682 100644
--- a/src/automaton.cpp
+++ b/src/automaton.cpp
@@ -1288,7 +1288,7 @@ void Automaton::build( const std::string& source, std::vector<Error>& warnings,
 	// [2] Test complexity boundaries:
 	if (langdef.prodlist.size() >= (std::size_t)MaxNofProductions)
 	{
-		throw Error( Error::ComplexityMaxStateInGrammarDef);
+		throw Error( Error::ComplexityMaxNofProductionsInGrammarDef);
 	}
 	if (langdef.lexer.nofTerminals() >= MaxTerminal)
 	{
-- 
2.43.0


From 2ac30b0725f8d3b783dceedcddff8f6152e4686c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:38 +0000
Subject: [PATCH 38/56] fix: llvm_float_tohex returned numbers that are no
 float for subnormal floats and overflow

---
 src/lualib_mewa.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index ac7cda3..e18ffb2 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -280,13 +280,10 @@ static int mewa_llvm_float_tohex( lua_State* ls)
 		mewa::lua::checkNofArguments( functionName, ls, 1/*minNofArgs*/, 1/*maxNofArgs*/);
 		double num = mewa::lua::getArgumentAsFloatingPoint( functionName, ls, 1);
 		char buf[ 64];
+		// ... the double with the value of the nearest float, subnormal floats and overflow included:
+		double floatnum = static_cast<float>( num);
 		int64_t encnum;
-		std::memmove( &encnum, &num, sizeof( encnum));
-		encnum >>= 28;
-		bool doinc = (encnum & 1);
-		if (doinc) ++encnum;
-		encnum = (encnum >> 1);
-		encnum = (encnum << 29);
+		std::memmove( &encnum, &floatnum, sizeof( encnum));
 		const char* fmt64 = sizeof(long) == 8 ? "%lx" : "%llx";
 		std::snprintf( buf, sizeof(buf), fmt64, encnum);
 		for (char* bi = buf; *bi; ++bi) if (*bi >= 'a' && *bi <= 'z') {*bi -= 32;}
-- 
2.43.0


From 1f6a50d67d99b636358dff3d98bb40018570ebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:01 +0000
Subject: [PATCH 39/56] fix: names of functions with misplaced dots were
 accepted and made tables that cannot be loaded

---
 src/automaton_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index 4d13ac1..4071e2c 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -69,7 +69,7 @@ public:
 		defineLexem( ":");
 		defineLexem( ";");
 		defineLexem( "ε");
-		defineLexem( 0/*no line*/, "CALL", "[-]{0,1}[a-zA-Z_][.a-zA-Z_0-9]*");
+		defineLexem( 0/*no line*/, "CALL", "[-]{0,1}[a-zA-Z_][a-zA-Z_0-9]*([.][a-zA-Z_][a-zA-Z_0-9]*)*");
 		defineLexem( "{");
 		defineLexem( "}");
 		defineLexem( ",");
-- 
2.43.0


From e2423ce10a2b759c913296f2f24642e814f1864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:08 +0000
Subject: [PATCH 40/56] fix: the template was the name of the file for -tFILE
 and --template=FILE

---
 src/mewa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mewa.cpp b/src/mewa.cpp
index 687aa01..d1e4cdf 100644
--- a/src/mewa.cpp
+++ b/src/mewa.cpp
@@ -301,7 +301,7 @@ int main( int argc, const char* argv[] )
 				int optofs = (argv[argi][1] == '-') ? 11:2;
 				if (argv[argi][ optofs])
 				{
-					templat = argv[argi]+optofs;
+					templat = readFile( argv[argi]+optofs);
 				}
 				else
 				{
-- 
2.43.0


From 549cf4e40592639c223ca2750536efc1fd73f37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:08 +0000
Subject: [PATCH 41/56] fix: only the first occurrence of each placeholder in
 the template of mewa -g was replaced

---
 src/mewa.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/mewa.cpp b/src/mewa.cpp
index d1e4cdf..ccd7a88 100644
--- a/src/mewa.cpp
+++ b/src/mewa.cpp
@@ -115,17 +115,14 @@ static std::string mapTemplateKey( const std::string& content, const char* key,
 {
 	std::string rt;
 	std::string pattern = std::string("%") + key + "%";
-	char const* pp = std::strstr( content.c_str(), pattern.c_str());
-	if (pp)
+	std::size_t ti = 0;
+	std::size_t pi = content.find( pattern);
+	for (; pi != std::string::npos; ti = pi + pattern.size(), pi = content.find( pattern, ti))
 	{
-		rt.append( content.c_str(), pp-content.c_str());
+		rt.append( content, ti, pi-ti);
 		rt.append( value);
-		rt.append( pp + pattern.size());
-	}
-	else
-	{
-		rt.append( content);
 	}
+	rt.append( content, ti, std::string::npos);
 	return rt;
 }
 
-- 
2.43.0


From 365eacc18400d7fbd4ea4a2fa685b62bf363ee00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:40 +0000
Subject: [PATCH 42/56] fix: output that could not be written completely was
 not reported (disk full)

---
 src/fileio.cpp | 11 +++++------
 src/mewa.cpp   |  5 +++++
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fileio.cpp b/src/fileio.cpp
index 5e4d17f..0b77adc 100644
--- a/src/fileio.cpp
+++ b/src/fileio.cpp
@@ -14,6 +14,7 @@
 #include "error.hpp"
 #include <cstdio>
 #include <cstring>
+#include <cerrno>
 #include <string>
 #include <libgen.h>
 
@@ -23,12 +24,10 @@ void mewa::writeFile( const char* filename, const std::string& content)
 {
 	FILE* ff = std::fopen( filename, "w");
 	if (!ff) throw Error( (Error::Code)errno, filename);
-	if (content.size() != std::fwrite( content.c_str(), 1, content.size(), ff))
-	{
-		std::fclose( ff);
-		throw Error( (Error::Code)std::ferror( ff), filename);
-	}
-	std::fclose( ff);
+	int eno = 0;
+	if (content.size() != std::fwrite( content.c_str(), 1, content.size(), ff)) eno = errno;
+	if (std::fclose( ff) != 0 && !eno) eno = errno; //... writes what is still in the buffer
+	if (eno) throw Error( (Error::Code)eno, filename);
 }
 
 void mewa::writeFile( const std::string& filename, const std::string& content)
diff --git a/src/mewa.cpp b/src/mewa.cpp
index ccd7a88..91e37e5 100644
--- a/src/mewa.cpp
+++ b/src/mewa.cpp
@@ -24,6 +24,7 @@
 #include <iostream>
 #include <sstream>
 #include <cstring>
+#include <cerrno>
 #include <string>
 #include <vector>
 #include <map>
@@ -454,6 +455,10 @@ int main( int argc, const char* argv[] )
 				}
 				break;
 		}
+		if (!std::cout.flush())
+		{
+			throw mewa::Error( (mewa::Error::Code)(errno ? errno : EIO), "stdout");
+		}
 		return 0;
 	}
 	catch (const mewa::Error& err)
-- 
2.43.0


From d285d02e64a0c178ed11058046583f61c27b07a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:36 +0000
Subject: [PATCH 43/56] fix: mewa.stacktrace read before the begin of an array
 for the main chunk and failed for files with a long path and chunks without
 file

---
 src/lua_parameter.cpp | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 5edbc08..32d62ba 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -674,16 +674,19 @@ void mewa::lua::pushStackTrace( lua_State* ls, const char* functionName, int nn,
 			lua_pushinteger( ls, ar.linedefined);				// STK: [STKTR] [ELEM] "line" [LINE]
 			lua_rawset( ls, -3);						// STK: [STKTR] [ELEM]
 		}
+		const bool isFile = ar.source[0] == '@';
+		const std::string filename( isFile ? ar.source+1 : ar.short_src);	// ... short_src is cut for long paths
 		lua_pushliteral( ls, "file");						// STK: [STKTR] [ELEM] "file"
-		lua_pushstring( ls, ar.short_src);					// STK: [STKTR] [ELEM] "file" [FILENAME]
+		lua_pushlstring( ls, filename.c_str(), filename.size());		// STK: [STKTR] [ELEM] "file" [FILENAME]
 		lua_rawset( ls, -3);							// STK: [STKTR] [ELEM]
-		auto fi = locationMap.find( ar.short_src);
+		auto fi = locationMap.find( filename);
 		if (fi == locationMap.end())
 		{
-			auto ins = locationMap.insert( {ar.short_src, mewa::readFileLines( ar.short_src)} );
+			auto ins = locationMap.insert( {filename, isFile ? mewa::readFileLines( filename) : std::vector<std::string>()} );
 			fi = ins.first;
 		}
-		if ((int)fi->second.size() >= ar.linedefined)
+		std::string funcstr = ar.linedefined >= 1 ? "?" : "main chunk";
+		if (ar.linedefined >= 1 && (int)fi->second.size() >= ar.linedefined)
 		{
 			char const* ln = fi->second[ ar.linedefined-1].c_str();
 			for (; *ln && (unsigned char)*ln <= 32; ++ln){}
@@ -691,20 +694,16 @@ void mewa::lua::pushStackTrace( lua_State* ls, const char* functionName, int nn,
 			for (; *ln && (unsigned char)*ln <= 32; ++ln){}
 			char const* le = std::strchr( ln, '(');
 			if (!le) le = std::strchr( ln, '\0');
-			std::string funcstr( ln, le-ln);
-			for (auto ignore : ignoreList)
-			{
-				const char* si = std::strstr( funcstr.c_str(), ignore.c_str());
-				do_ignore |= (!!si);
-			}
-			lua_pushliteral( ls, "function");				// STK: [STKTR] [ELEM] "function"
-			lua_pushlstring( ls, ln, le-ln);				// STK: [STKTR] [ELEM] "function" [FUNCNAME]
-			lua_rawset( ls, -3);						// STK: [STKTR] [ELEM]
+			funcstr.assign( ln, le-ln);
 		}
-		else
+		for (auto ignore : ignoreList)
 		{
-			throw mewa::Error( mewa::Error::LogicError, string_format( "%s line %d", __FILE__, (int)__LINE__));
+			const char* si = std::strstr( funcstr.c_str(), ignore.c_str());
+			do_ignore |= (!!si);
 		}
+		lua_pushliteral( ls, "function");					// STK: [STKTR] [ELEM] "function"
+		lua_pushlstring( ls, funcstr.c_str(), funcstr.size());			// STK: [STKTR] [ELEM] "function" [FUNCNAME]
+		lua_rawset( ls, -3);							// STK: [STKTR] [ELEM]
 		if (do_ignore)
 		{
 			lua_pop( ls, 1);
-- 
2.43.0


From 69683e8af050a83e5f49a83bc05549ec84ae4475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:42 +0000
Subject: [PATCH 44/56] fix: a reduce/reduce conflict without look-ahead was
 reported for grammars with nonterminals that derive nothing

---
 src/automaton.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/automaton.cpp b/src/automaton.cpp
index 1a8d682..65b5e1a 100644
--- a/src/automaton.cpp
+++ b/src/automaton.cpp
@@ -623,6 +623,10 @@ static ReductionDef
 				rt.scope = prod.scope;
 				last_prodidx = item.prodindex;
 			}
+			else if (followMap.content( follow).empty())
+			{
+				//... no look-ahead, not reachable in any parse, thus no conflict
+			}
 			else if (rt.head != prod.left.index() || rt.count != (int)prod.right.size() || rt.callidx != prod.callidx)
 			{
 				warnings.push_back(
-- 
2.43.0


From 89f289817bc13eb40448569a94c4233872064b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:40 +0000
Subject: [PATCH 45/56] fix: parts of the error of a function were lost if it
 looked similar to an error of mewa

---
 src/error.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/error.cpp b/src/error.cpp
index 96ff7de..6e19d10 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -93,7 +93,7 @@ Error Error::parseError( const char* errstr) noexcept
 				param_ = errstr;
 				state = StateEnd;
 			}
-			else if (0==std::memcmp( msgstart, code2String( code_), ei-msgstart))
+			else if (std::string_view( msgstart, ei-msgstart) == code2String( code_))
 			{
 				++ei;
 				skipSpaces( ei);
@@ -148,6 +148,14 @@ Error Error::parseError( const char* errstr) noexcept
 			}
 			else
 			{
+				//... not in the format of an error of Mewa
+				if (code_ != RuntimeException)
+				{
+					code_ = RuntimeException;
+					filename_ = "";
+					line_ = 0;
+				}
+				param_ = errstr;
 				state = StateEnd;
 			}
 			break;
-- 
2.43.0


From 93b8b8fe5533490c700d060c57e12fc4b6372ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:41 +0000
Subject: [PATCH 46/56] fix: errors of functions longer than 511 characters
 were truncated if not from a .lua file

---
 src/lua_run_compiler.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index 2ee69de..f3bd854 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -287,14 +287,12 @@ static mewa::Error::Code luaErrorCode2ErrorCode( int rc)
 static int lua_pcall_errorhandler( lua_State* ls)
 {
 	int line = 0;
-	char msgbuf[ 512];
 	int ridx = 1;
 	lua_Debug ar;
 
 	int nn = lua_gettop( ls);
 	char const* msgstr = (nn >= 1) ? lua_tostring( ls, 1) : "";
 	if (!msgstr) msgstr = "";
-	std::size_t msglen;
 	if (0!=std::strstr( msgstr, ".lua:"))
 	{
 		lua_pushstring( ls, msgstr);
@@ -310,17 +308,12 @@ static int lua_pcall_errorhandler( lua_State* ls)
 			line = ar.linedefined;
 			if (line)
 			{
-				msglen = std::snprintf( msgbuf, sizeof(msgbuf), "%s:%d: %s", ar.short_src, line, msgstr);
+				lua_pushfstring( ls, "%s:%d: %s", ar.short_src, line, msgstr);
 			}
 			else
 			{
-				msglen = std::snprintf( msgbuf, sizeof(msgbuf), "%s: %s", ar.short_src, msgstr);
+				lua_pushfstring( ls, "%s: %s", ar.short_src, msgstr);
 			}
-			if (msglen > sizeof(msgbuf))
-			{
-				msgbuf[ msglen = sizeof(msgbuf)-1] = 0;
-			}
-			lua_pushlstring( ls, msgbuf, msglen);
 			return 1;
 		}
 		++ridx;
-- 
2.43.0


From a5bb3838be0ec1bfea9550518be889ecba1d0658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:41 +0000
Subject: [PATCH 47/56] fix: the error of a run was empty if a function failed
 with an error that is no text

---
 src/lua_run_compiler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index f3bd854..012cda2 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -385,8 +385,8 @@ static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbg
 		if (rc)
 		{
 			const char* msg = lua_tostring( ls, -1);
-			mewa::Error err = mewa::Error::parseError( msg);
-			if (err.code() == mewa::Error::RuntimeException)
+			mewa::Error err = mewa::Error::parseError( msg ? msg : "");
+			if (err.code() == mewa::Error::RuntimeException || err.code() == mewa::Error::Ok)
 			{
 				throw mewa::Error( luaErrorCode2ErrorCode( rc), msg ? msg : "");
 			}
-- 
2.43.0


From 43434b0ec3da8db5b1fadaaad6424ef4d81459fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:13 +0000
Subject: [PATCH 48/56] fix: reading a directory was reported as 'Operation not
 permitted'

---
 src/fileio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fileio.cpp b/src/fileio.cpp
index 0b77adc..75b3f6b 100644
--- a/src/fileio.cpp
+++ b/src/fileio.cpp
@@ -50,7 +50,7 @@ std::string mewa::readFile( const char* filename)
 	}
 	rt.append( rbuf, nn);
 
-	int eno = std::ferror( ff);
+	int eno = std::ferror( ff) ? errno : 0;
 	bool eof = std::feof( ff);
 	std::fclose( ff);
 
-- 
2.43.0


From 585d21a45cc990a314bb39f744b56e27e22439c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:13 +0000
Subject: [PATCH 49/56] fix: debug output of a compiler that could not be
 written was lost without an error

---
 src/lua_run_compiler.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index 012cda2..fb6f196 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -26,6 +26,7 @@
 #include <typeinfo>
 #include <limits>
 #include <cmath>
+#include <cerrno>
 #include <algorithm>
 extern "C" {
 #include <lua.h>
@@ -191,11 +192,10 @@ static void printDebug( FILE* dbgout, const char* fmt, ...)
 	std::string content = mewa::string_format_va( fmt, ap);
 	va_end( ap);
 
-	if (!std::fwrite( content.data(), content.size(), 1, dbgout))
+	if (!std::fwrite( content.data(), content.size(), 1, dbgout) || std::fflush( dbgout) != 0)
 	{
-		throw mewa::Error( (mewa::Error::Code) std::ferror( dbgout), "debug output");
+		throw mewa::Error( (mewa::Error::Code) errno, "debug output");
 	}
-	std::fflush( dbgout);
 }
 
 static void luaReduceStruct( 
-- 
2.43.0


From a1bf3420210e94ba33e14f2de723b9d6a63a6d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:13 +0000
Subject: [PATCH 50/56] fix: output of a compiler on stdout, stderr or with
 debug was lost without an error if it could not be written, or cut at a zero
 byte

---
 src/lualib_mewa.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index e18ffb2..e119bae 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -144,21 +144,18 @@ static int lua_print_redirected_impl( lua_State* ls, FILE* fh)
 			}
 			catch (...) {lippincottFunction( ls);}
 		}
-		if (len < std::fwrite( str, 1, len, fh))
+		if (len > std::fwrite( str, 1, len, fh))
 		{
-			int ec = std::ferror( fh);
-			mewa::Error err( (mewa::Error::Code)ec, functionName);
-			luaL_error( ls, "%s", err.what());
+			try {throw mewa::Error( (mewa::Error::Code)errno, functionName);}
+			catch (...) {lippincottFunction( ls);}
 		}
 	}
 	// Print eoln:
-	if (1 > std::fwrite( "\n", 1, 1, fh))
+	if (1 > std::fwrite( "\n", 1, 1, fh) || std::fflush( fh) != 0)
 	{
-		int ec = std::ferror( fh);
-		mewa::Error err( (mewa::Error::Code)ec, functionName);
-		luaL_error( ls, "%s", err.what());
+		try {throw mewa::Error( (mewa::Error::Code)errno, functionName);}
+		catch (...) {lippincottFunction( ls);}
 	}
-	std::fflush( fh);
 	return 0;
 }
 
@@ -404,6 +401,14 @@ static void copyFileNameToBuffer( char* buf, std::size_t bufsize, std::string_vi
 	std::memcpy( buf, str.data(), str.size());
 	buf[ str.size()] = 0;
 }
+static void writeOutput( FILE* fh, const std::string_view& name, const std::string& content)
+{
+	if (content.size() != std::fwrite( content.data(), 1, content.size(), fh) || std::fflush( fh) != 0)
+	{
+		throw mewa::Error( (mewa::Error::Code) errno, name);
+	}
+}
+
 static int mewa_compiler_run( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "compiler:run( target, options, inputfile, [,outputfile [,dbgoutput]])";
@@ -478,11 +483,11 @@ static int mewa_compiler_run( lua_State* ls)
 			std::string output = mewa::template_format( targetptr, '{', '}', cp->outputSectionMap);
 			if (outputfn == "stderr")
 			{
-				std::fputs( output.c_str(), ::stderr);
+				writeOutput( ::stderr, outputfn, output);
 			}
 			else if (outputfn == "stdout")
 			{
-				std::puts( output.c_str());
+				writeOutput( ::stdout, outputfn, output + "\n");
 			}
 			else
 			{
-- 
2.43.0


From d85b98753e91337494a3cebba5dfdb2272cfd734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:27 +0000
Subject: [PATCH 51/56] fix: a parameter of def_type that is neither a type nor
 a pair crashed or was taken as type 0

---
 src/lua_parameter.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 32d62ba..a5f0a7b 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -235,7 +235,7 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 		int type = mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, li);
 		return mewa::TypeDatabase::TypeConstructorPair( type, 0/*constructor*/);
 	}
-	else
+	else if (lua_type( ls, li) == LUA_TTABLE)
 	{
 		lua_pushvalue( ls, li);
 		lua_pushnil( ls);							//STK: [PARAMTAB] [KEY]
@@ -249,7 +249,7 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 				int kidx = getTableIndex( ls, -2);
 				if (kidx == 1)
 				{
-					type = lua_tointeger( ls, -1);
+					type = mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, -1);
 				}
 				else if (kidx == 2)
 				{
@@ -267,7 +267,7 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 				char const* str = lua_tolstring( ls, -2, &len);
 				if (len == 4 && 0==std::memcmp( str, "type", len))
 				{
-					type = lua_tointeger( ls, -1);
+					type = mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, -1);
 				}
 				else if (len == 11 && 0==std::memcmp( str, "constructor", len))
 				{
@@ -288,6 +288,10 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 		}
 		return mewa::TypeDatabase::TypeConstructorPair( type, constructor);
 	}
+	else
+	{
+		mewa::lua::throwArgumentError( functionName, -1, mewa::Error::ExpectedArgumentTypeConstructorPairList);
+	}
 }
 
 std::pmr::vector<mewa::TypeDatabase::TypeConstructorPair>
-- 
2.43.0


From 3d6ef6856dc9c94c078b77ea5ed14504143d7563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:00 +0000
Subject: [PATCH 52/56] fix: integer arguments out of range were truncated

---
 src/lua_parameter.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index a5f0a7b..167760f 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -101,14 +101,14 @@ const char* mewa::lua::getArgumentAsCString( const char* functionName, lua_State
 	return lua_tostring( ls, li);
 }
 
-long mewa::lua::getArgumentAsInteger( const char* functionName, lua_State* ls, int li, mewa::Error::Code ec)
+static long getArgumentAsIntegerInRange( const char* functionName, lua_State* ls, int li, mewa::Error::Code ec, double minval, double maxval)
 {
 	if (!mewa::lua::isArgumentType( functionName, ls, li, (1 << LUA_TNUMBER)))
 	{
 		mewa::lua::throwArgumentError( functionName, li, ec);
 	}
 	double val = lua_tonumber( ls, li);
-	if (val - std::floor( val) < std::numeric_limits<double>::epsilon()*4)
+	if (val >= minval && val <= maxval && val - std::floor( val) < std::numeric_limits<double>::epsilon()*4)
 	{
 		return (long)std::floor( val);
 	}
@@ -118,6 +118,11 @@ long mewa::lua::getArgumentAsInteger( const char* functionName, lua_State* ls, i
 	}
 }
 
+long mewa::lua::getArgumentAsInteger( const char* functionName, lua_State* ls, int li, mewa::Error::Code ec)
+{
+	return getArgumentAsIntegerInRange( functionName, ls, li, ec, std::numeric_limits<int>::min(), std::numeric_limits<int>::max());
+}
+
 long mewa::lua::getArgumentAsUnsignedInteger( const char* functionName, lua_State* ls, int li)
 {
 	long rt = mewa::lua::getArgumentAsInteger( functionName, ls, li, mewa::Error::ExpectedUnsignedIntegerArgument);
@@ -186,11 +191,11 @@ mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State*
 			int kidx = getTableIndex( ls, -2);
 			if (kidx == 1)
 			{
-				start = lua_tointeger( ls, -1);
+				start = mewa::lua::getArgumentAsInteger( functionName, ls, -1, mewa::Error::ExpectedArgumentScopeStructure);
 			}
 			else if (kidx == 2)
 			{
-				end = lua_tointeger( ls, -1);
+				end = mewa::lua::getArgumentAsInteger( functionName, ls, -1, mewa::Error::ExpectedArgumentScopeStructure);
 				if (end < 0)
 				{
 					end = std::numeric_limits<Scope::Step>::max() + end + 1;
@@ -217,7 +222,8 @@ mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State*
 
 mewa::TagMask mewa::lua::getArgumentAsTagMask( const char* functionName, lua_State* ls, int li)
 {
-	mewa::TagMask::BitSet bs = mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, li);
+	mewa::TagMask::BitSet bs = getArgumentAsIntegerInRange( functionName, ls, li, mewa::Error::ExpectedNonNegativeIntegerArgument,
+								0, std::numeric_limits<mewa::TagMask::BitSet>::max());
 	return mewa::TagMask( bs);
 }
 
@@ -371,9 +377,9 @@ int mewa::lua::getArgumentAsType( const char* functionName, lua_State* ls, int l
 	{
 		lua_pushliteral( ls, "type");			// STK: [ARG] "type"
 		lua_rawget( ls, li > 0 ? li : (li-1));		// STK: [ARG] [TYPE]
-		if (lua_isnumber( ls, -1))
+		if (lua_type( ls, -1) == LUA_TNUMBER)
 		{
-			rt = lua_tointeger( ls, -1);
+			rt = mewa::lua::getArgumentAsInteger( functionName, ls, -1, mewa::Error::ExpectedArgumentType);
 			if (rt < 0) mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentType);
 			lua_pop( ls, 1);
 		}
@@ -417,7 +423,7 @@ std::pmr::vector<int> mewa::lua::getArgumentAsTypeList(
 					lua_rawget( ls, -2);						// STK: [KEY] [VAL] [TYPE]
 					if (lua_isnumber( ls, -1))
 					{
-						type = lua_tointeger( ls, -1);
+						type = mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, -1);
 					}
 					else
 					{
-- 
2.43.0


From 13be1a79f3c8eb291c0fc2988ec26be98194faf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:59 +0000
Subject: [PATCH 53/56] fix: a reduction weight that is not a number (nan) was
 accepted

---
 src/scope.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scope.hpp b/src/scope.hpp
index 611430a..54173b6 100644
--- a/src/scope.hpp
+++ b/src/scope.hpp
@@ -861,7 +861,7 @@ public:
  	void set( const Scope scope, const RELNODETYPE& left, const RELNODETYPE& right, const VALTYPE& value, int tag, float weight)
 	{
 		if (tag > TagMask::MaxTag || tag < TagMask::MinTag) throw Error( Error::BadRelationTag, string_format("%d",tag));
-		if (weight < 0.0) throw Error( Error::BadRelationWeight, string_format("%.4f",weight));
+		if (!(weight >= 0.0)) throw Error( Error::BadRelationWeight, string_format("%.4f",weight));
 
 		std::uint8_t tagval = TagMask::tagValFromTag( tag);
 		int newlistindex = m_list.size();
-- 
2.43.0


From aafd4c90af307e6945da0ee6812091e70222777f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:01 +0000
Subject: [PATCH 54/56] fix: actions with long calls were cut off with a zero
 byte in the debug output of the generator

---
 src/automaton.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/automaton.cpp b/src/automaton.cpp
index 65b5e1a..9c873b3 100644
--- a/src/automaton.cpp
+++ b/src/automaton.cpp
@@ -1228,31 +1228,26 @@ static void printStateTransitions( const Automaton& automaton, const Lexer& lexe
 
 std::string Automaton::actionString( const Action& action) const
 {
-	char buf[ 2048];
-	std::size_t len = 0;
 	switch (action.type())
 	{
 		case Automaton::Action::Shift:
-			len = std::snprintf( buf, sizeof( buf), "%s goto %d", "Shift", action.state());
-			break;
+			return string_format( "%s goto %d", "Shift", action.state());
 		case Automaton::Action::Reduce:
 		{
 			if (action.call())
 			{
 				std::string callstr = call( action.call()).tostring();
-				len = std::snprintf( buf, sizeof( buf), "%s #%d %s call %s", "Reduce", action.count(), nonterminal( action.nonterminal()).c_str(), callstr.c_str());
+				return string_format( "%s #%d %s call %s", "Reduce", action.count(), nonterminal( action.nonterminal()).c_str(), callstr.c_str());
 			}
 			else
 			{
-				len = std::snprintf( buf, sizeof( buf), "%s #%d %s", "Reduce", action.count(), nonterminal( action.nonterminal()).c_str());
+				return string_format( "%s #%d %s", "Reduce", action.count(), nonterminal( action.nonterminal()).c_str());
 			}
-			break;
 		}
 		case Automaton::Action::Accept:
-			len = std::snprintf( buf, sizeof( buf), "%s", "Accept");
+			break;
 	}
-	if (len >= sizeof(buf)) len = sizeof(buf);
-	return std::string( buf, len);
+	return "Accept";
 }
 
 std::string Automaton::Call::tostring() const
-- 
2.43.0


From 33dae24ba256360cf90a0679e5b8590019a12d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:15 +0000
Subject: [PATCH 55/56] fix: mewa.compiler took version 0.100 for 1.0 and told
 an incompatible version as line number

---
 src/lua_load_automaton.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lua_load_automaton.cpp b/src/lua_load_automaton.cpp
index ac1dc57..da6fcbe 100644
--- a/src/lua_load_automaton.cpp
+++ b/src/lua_load_automaton.cpp
@@ -386,7 +386,7 @@ static int parseVersion( char const* vstr)
 	for (++vi; *vi >= '0' && *vi <= '9'; ++vi)
 	{
 		minor = minor * 10 + (*vi - '0');
-		if (minor > 100) throw mewa::Error( mewa::Error::BadMewaVersion, vstr);
+		if (minor >= 100) throw mewa::Error( mewa::Error::BadMewaVersion, vstr);
 	}
 	if (*vi != '.' && *vi != '\0') throw mewa::Error( mewa::Error::BadMewaVersion, vstr);
 	rt += minor;
@@ -425,7 +425,7 @@ mewa::Automaton mewa::luaLoadAutomaton( lua_State *ls, int li)
 			version = parseVersion( lua_tostring( ls, -1));
 			if (version >= ((MEWA_MAJOR_VERSION+1) * 100))
 			{
-				throw mewa::Error( mewa::Error::IncompatibleMewaMajorVersion, parseVersion( lua_tostring( ls, -1)));
+				throw mewa::Error( mewa::Error::IncompatibleMewaMajorVersion, lua_tostring( ls, -1));
 			}
 		}
 		else if (0==std::strcmp( keystr, "language"))
-- 
2.43.0


From 45d583d314d4fa1eeb138b114383eda2201eac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:15 +0000
Subject: [PATCH 56/56] fix: mewa.compiler read tokens without pattern or not
 in a table out of bounds and left out calls that are no table

---
 src/lua_load_automaton.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lua_load_automaton.cpp b/src/lua_load_automaton.cpp
index da6fcbe..0f05e5b 100644
--- a/src/lua_load_automaton.cpp
+++ b/src/lua_load_automaton.cpp
@@ -71,6 +71,10 @@ static std::vector<std::string> parseStringArray( lua_State *ls, int li, const s
 	std::vector<std::string> rt;
 	int rowcnt = 0;
 
+	if (!lua_istable( ls, li))
+	{
+		throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable, mewa::string_format( "table '%s'", tableName.c_str()));
+	}
 	lua_pushvalue( ls, li);
 	lua_pushnil( ls);
 
@@ -220,7 +224,7 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 								mewa::string_format( "table '%s/%s', row %d col %d", tableName, keystr, rowcnt, colcnt));
 				}
 				auto arg = parseStringArray( ls, -1, mewa::string_format( "%s/%s", tableName, keystr));
-				if (arg.size() > 3 || arg.empty())
+				if (arg.size() > 3 || arg.size() < 2)
 				{
 					throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable,
 								mewa::string_format( "table '%s/%s', row %d", tableName, keystr, rowcnt));
@@ -361,10 +365,12 @@ static std::vector<mewa::Automaton::Call> parseCallList( lua_State *ls, int li,
 			throw mewa::Error( mewa::Error::BadKeyInGeneratedLuaTable,
 						mewa::string_format( "table '%s', row %d", tableName.c_str(), rowcnt));
 		}
-		if (lua_istable( ls, -1))
+		if (!lua_istable( ls, -1))
 		{
-			rt.push_back( parseCall( ls, -1, tableName + "[]"));
+			throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable,
+						mewa::string_format( "table '%s', row %d", tableName.c_str(), rowcnt));
 		}
+		rt.push_back( parseCall( ls, -1, tableName + "[]"));
 		lua_pop( ls, 1);
 	}
 	lua_pop( ls, 1);
-- 
2.43.0

