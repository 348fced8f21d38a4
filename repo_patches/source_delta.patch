From 9fa2feee13f5fafe4a2a15d2f8f8c13e7b9ce812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 01/32] fix: skip only the three bytes of a UTF-8 BOM

Dropping four bytes also lost the first real character of the file and threw
std::out_of_range when the first line held nothing but the BOM.
---
 src/grammar.cpp | 2 +-
 src/lexicon.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grammar.cpp b/src/grammar.cpp
index 7b84814..a84b4dd 100644
--- a/src/grammar.cpp
+++ b/src/grammar.cpp
@@ -69,7 +69,7 @@ void Grammar::initialize( std::istream &is )
 
         // remove UTF8 BOM if one exists
         if ( line_cnt == 1 and line[0] == '\xEF' and line[1] == '\xBB' and line[2] == '\xBF' )
-            line = line.substr(4);
+            line = line.substr(3);
 
         // skip over comments and blank lines
         if ( boost::u32regex_match( line, re_comment ) ) 
diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 098a8d2..304d2d2 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -74,7 +74,7 @@ void Lexicon::initialize( std::istream &is ) {
 
     // remove UTF8 BOM if one exists
     if (line[0] == '\xEF' && line[1] == '\xBB' && line[2] == '\xBF')
-        line = line.substr(4);
+        line = line.substr(3);
     ++cnt;
 
     // read the header and skip any
-- 
2.43.0


From 34f22d73a9a6ed7a0bf78a9635a8cccf4c5cbb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 02/32] fix: accept lexicon files whose lines end in <CR><LF>

docs/lexicon.md allows <CR><LF> line ends (data/sample/germany.lex has them),
but the <CR> stayed on the last field of each line: attachment flags were
lost, a type in the last column made the entry invalid, the locale became
unusable and a blank line was reported as an invalid entry.
---
 src/lexicon.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 304d2d2..a91c672 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -23,6 +23,16 @@
 #include "inclass.h"
 #include "lexicon.h"
 
+// read one line, dropping the <CR> of a <CR><LF> line end
+
+static std::istream &getLine( std::istream &is, std::string &line ) {
+    std::getline( is, line );
+    if ( not line.empty() and line.back() == '\r' )
+        line.pop_back();
+    return is;
+}
+
+
 // constructors
 
 Lexicon::Lexicon() {
@@ -69,7 +79,7 @@ void Lexicon::initialize( std::istream &is ) {
     std::string lexicon_in;
     unsigned long int cnt = 0;
 
-    std::getline( is, line );
+    getLine( is, line );
     lexicon_in += line;
 
     // remove UTF8 BOM if one exists
@@ -82,7 +92,7 @@ void Lexicon::initialize( std::istream &is ) {
         if (line.substr(0,9) == "LEXENTRY:") {
             throw std::runtime_error("Lexicon-LexEntry-Before-Lexicon");
         }
-        std::getline( is, line );
+        getLine( is, line );
         lexicon_in += line;
         ++cnt;
     }
@@ -112,7 +122,7 @@ void Lexicon::initialize( std::istream &is ) {
 
     // read in the lexicon entries
     while ( is ) {
-        std::getline( is, line );
+        getLine( is, line );
         lexicon_in += line;
         ++cnt;
         //std::cout << "\t" << line << "\n";
-- 
2.43.0


From 74066cc36c7a9623f07b01de0cf569cba300f93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 03/32] fix: quote every regex metacharacter of a trie word

'^', '{' and '}' were left unquoted, so a lexicon word holding one of them did
not match its own text or made the whole expression invalid, and
Trie::quoteChar() added the character to a string literal's address instead
of appending it.
---
 src/trie.cpp     | 4 ++--
 src/trieutf8.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trie.cpp b/src/trie.cpp
index 827ae74..ba31c82 100644
--- a/src/trie.cpp
+++ b/src/trie.cpp
@@ -106,12 +106,12 @@ void Trie::getWordsStartingWith( std::string prefix, WordSet &words, std::string
 
 
 std::string Trie::quoteChar( const char c ) const {
-    static std::string special( "-.+*~$()[]\\|?" );
+    static std::string special( "-.+*~^$(){}[]\\|?" );
     auto found = special.find_first_of( c );
     if ( found == std::string::npos )
         return std::string( 1, c );
     else
-        return "\\" + c;
+        return std::string( "\\" ) + c;
 }
 
 
diff --git a/src/trieutf8.cpp b/src/trieutf8.cpp
index aee5370..b2a145b 100644
--- a/src/trieutf8.cpp
+++ b/src/trieutf8.cpp
@@ -121,7 +121,7 @@ void TrieUtf8::getWordsStartingWith( const std::string &prefix, WordSet &words,
 
 
 std::string TrieUtf8::quoteMeta( const std::string &str ) const {
-    static std::string special( "-.+*~$()[]\\|?" );
+    static std::string special( "-.+*~^$(){}[]\\|?" );
 
     std::string tmp;
     size_t last = 0;
-- 
2.43.0


From 1aed08cb94ef4d8707bd743b31f392a425bc04bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 04/32] fix: do not load the last line of a file twice

When a grammar or lexicon does not end in a newline the read loop made one
more pass after end of file with the last line still in hand: the last rule
of a grammar was stored twice, and a lexicon that is only a header was
rejected.
---
 src/grammar.cpp | 3 +--
 src/lexicon.cpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/grammar.cpp b/src/grammar.cpp
index a84b4dd..f6ad6ea 100644
--- a/src/grammar.cpp
+++ b/src/grammar.cpp
@@ -61,9 +61,8 @@ void Grammar::initialize( std::istream &is )
 
     boost::smatch what;
     int line_cnt = 0;
-    while ( is ) {
+    while ( std::getline( is, line ) ) {
         ++line_cnt;
-        std::getline( is, line );
         grammar_in += line;
         //std::cout << "\t" << line_cnt << ": " << line << "\n";
 
diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index a91c672..9b9e3d4 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -121,8 +121,7 @@ void Lexicon::initialize( std::istream &is ) {
     UErrorCode errorCode;
 
     // read in the lexicon entries
-    while ( is ) {
-        getLine( is, line );
+    while ( getLine( is, line ) ) {
         lexicon_in += line;
         ++cnt;
         //std::cout << "\t" << line << "\n";
-- 
2.43.0


From b2358efb635bedc821e99add384e7e0e247885c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 05/32] fix: count characters, not bytes, when classifying by
 length

A single accented letter was classified DOUBLE and a four digit number in
non-ASCII digits was not QUAD, because the length of the UTF-8 encoding was
used instead of the number of characters.
---
 src/lexicon.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 9b9e3d4..4c304bf 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -33,6 +33,13 @@ static std::istream &getLine( std::istream &is, std::string &line ) {
 }
 
 
+// number of characters, not bytes, in a UTF-8 string
+
+static int charCount( const std::string &str ) {
+    return icu::UnicodeString::fromUTF8( icu::StringPiece( str ) ).countChar32();
+}
+
+
 // constructors
 
 Lexicon::Lexicon() {
@@ -252,9 +259,9 @@ void Lexicon::classify( Token& token, InClass::Type typ ) {
     }
     else if (boost::u32regex_match( text, num_exp )) {
         token.inclass( InClass::NUMBER );
-        if (text.length() == 4)
+        if (charCount( text ) == 4)
             token.inclass( InClass::QUAD );
-        if (text.length() == 5)
+        if (charCount( text ) == 5)
             token.inclass( InClass::QUINT );
     }
     else if ( text == "@" ) {
@@ -283,9 +290,9 @@ void Lexicon::classify( Token& token, InClass::Type typ ) {
         if (boost::u32regex_match( text, has_digit ))
             token.inclass( InClass::MIXED );
         else {
-            if (text.length() == 2)
+            if (charCount( text ) == 2)
                 token.inclass( InClass::DOUBLE );
-            else if (text.length() == 1)
+            else if (charCount( text ) == 1)
                 token.inclass( InClass::SINGLE );
 
             token.inclass( InClass::WORD );
-- 
2.43.0


From 1440caf67c66751f7eec028d180aadff02e65dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 06/32] fix: do not split a blank separator token into empty
 words

With the SPACE class left out of the filter, each ' ' separator was split
into two empty words, so n spaces gave 2^n - 1 bogus alternate phrases holding
empty WORD tokens.
---
 src/tokenizer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 2806648..e10694a 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -11,6 +11,7 @@
  *
  ***************************************************ADDRESS_STANDARDIZER**/
 
+#include <algorithm>
 #include <vector>
 #include <string>
 #include <boost/algorithm/string/classification.hpp>
@@ -277,6 +278,10 @@ std::vector<std::vector<Token> > Tokenizer::getAltTokens( const std::vector<Toke
         std::vector<std::string> words;
         std::string str( t.text() );
         boost::split(words, str, boost::is_any_of(" "), boost::token_compress_on);
+        // a token that is only a space or ends in one has no word there
+        words.erase( std::remove( words.begin(), words.end(), "" ), words.end() );
+        if ( words.empty() )
+            words.push_back( str );
         alt.push_back( words );
     }
 
-- 
2.43.0


From f949bee1ca05a0a0250927c5d995bc29eec92f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 07/32] fix: keep the text of a separator token that holds a
 tab

Token(string) reads tab separated fields, so a tab between two words became a
PUNCT token with empty text instead of a SPACE, and punctuation after a tab
was lost.
---
 src/tokenizer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index e10694a..d94a64f 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -237,7 +237,9 @@ std::vector<Token> Tokenizer::getTokens( std::string str ) {
 
         // create a token for the punctuation
         if (what[2].first < what[2].second) {
-            Token punct( std::string(what[2].first, what[2].second) );
+            // Token(string) parses tab separated fields, so set the text
+            Token punct;
+            punct.text( std::string(what[2].first, what[2].second) );
             punct.trim( 3 );    // trim white space from both ends of token
             lex_.classify(punct, InClass::PUNCT);
             outtokens.push_back(punct);
-- 
2.43.0


From 1b28df8b5fde6179aea5914bf7dfbe8c3d7af2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 08/32] fix: tokenize the whole address

A leading separator (with a lexicon loaded) or any symbol or uncased mark
matched no alternative, so the rest of the address was dropped.
---
 src/tokenizer.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index d94a64f..857304d 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -187,21 +187,23 @@ std::vector<Token> Tokenizer::getTokens( std::string str ) {
     // build the regex for identifying tokens
     //
     // ^\\s*                    -- ignore leading white space
-    // (?!(?:\xe2\x80\x94)+)    -- ignore optional leading uft8 emdash
+    // (?:\xe2\x80\x94\\s*)*     -- ignore optional leading uft8 emdash
     // (                        -- capture token
     //  lex_.regex()            -- include regex for lexicon entries
     //  \\d+[/,\\.]\\d+ |       -- numbers and fractions  99/99, 99.99, 99,99
     //  \\d+ |                  -- integers 99
     //  \\<[[:alpha:]]+\\> |    -- words
     //  [\\p{L}\\p{Nd}]+ |      -- utf8 letter followed by digits
-    //  [[:alpha:]\\d]+         -- letter followed by digits  A1, B99
+    //  [[:alpha:]\\d]+ |       -- letter followed by digits  A1, B99
+    //  (?:(?!_)\\w)+ |         -- any other utf8 letters, marks and digits
+    //                          -- nothing, if it starts with a separator
     // )
     // (                        -- capture separator following token
-    //  [-&\\s\\|[:punct:]]+ |  -- 1+ of '-', space, [:punct:]
+    //  [-&\\s\\|[:punct:]\\W]+ | -- 1+ of '-', space, [:punct:], symbols
     //  \xe2\x80\x94 |          -- utf8 emdash
     //  $                       -- or end of string
     // )
-    std::string regex = "^\\s*(?!(?:\xe2\x80\x94)+)(" + lex_.regex() + "\\d+[/,\\.]\\d+|\\d+|\\<[[:alpha:]]+\\>|[\\p{L}\\p{Nd}]+|[[:alpha:]\\d]+)([-&\\s\\|[:punct:]]+|\xe2\x80\x94|$)";
+    std::string regex = "^\\s*(?:\xe2\x80\x94\\s*)*(" + lex_.regex() + "\\d+[/,\\.]\\d+|\\d+|\\<[[:alpha:]]+\\>|[\\p{L}\\p{Nd}]+|[[:alpha:]\\d]+|(?:(?!_)\\w)+|)([-&\\s\\|[:punct:]\\W]+|\xe2\x80\x94|$)";
 
     boost::u32regex re = boost::make_u32regex( regex, boost::regex::icase );
 
-- 
2.43.0


From 78e2f2f540a91eedf4e6a6e23d83da5070aa5847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 09/32] fix: report a bad lexicon or grammar instead of
 crashing the backend

CreateStd passed a NULL err_msg pointer to be written through, freed the
Lexicon twice when the Grammar was bad, and called SPI_finish although it
had not connected.
---
 src/std_pg_hash.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/std_pg_hash.c b/src/std_pg_hash.c
index 9f96aa9..0fd0ddb 100644
--- a/src/std_pg_hash.c
+++ b/src/std_pg_hash.c
@@ -587,7 +587,7 @@ CreateStd(char *lexicon, char *grammar)
     STANDARDIZER     *std;
     void             *lex;
     void             *gmr;
-    char            **err_msg = NULL;
+    char             *err_msg = NULL;
     char             *pmsg;
 
     DBG("Enter: CreateStd");
@@ -599,26 +599,23 @@ CreateStd(char *lexicon, char *grammar)
 
 
     DBG("Calling getLexiconPtr( lexicon, err_msg )");
-    lex = getLexiconPtr( lexicon, err_msg );
+    lex = getLexiconPtr( lexicon, &err_msg );
     DBG("Back from (%p) getLexiconPtr( lexicon, err_msg )", lex);
     if (!lex) {
         std_free(std);
-        SPI_finish();
-        pmsg = pstrdup(*err_msg);
-        free(*err_msg);
+        pmsg = pstrdup(err_msg);
+        free(err_msg);
         elog(ERROR, "CreateStd: failed to load Lexicon (%s)", pmsg);
     }
     std->lex_obj = lex;
 
     DBG("Calling getGrammarPtr( grammar, err_msg )");
-    gmr = getGrammarPtr( grammar, err_msg );
+    gmr = getGrammarPtr( grammar, &err_msg );
     DBG("Back from (%p) getGrammarPtr( grammar, err_msg )", gmr);
     if (!gmr) {
-        freeLexiconPtr( lex );
-        std_free(std);
-        SPI_finish();
-        pmsg = pstrdup(*err_msg);
-        free(*err_msg);
+        std_free(std);      /* this also frees the Lexicon */
+        pmsg = pstrdup(err_msg);
+        free(err_msg);
         elog(ERROR, "CreateStd: failed to load Gammar (%s)", pmsg);
     }
     std->gmr_obj = gmr;
-- 
2.43.0


From 88e82710d827542db42beceee851a0f6b8dc9f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 10/32] fix: return each way to match the grammar once

matchNext continued all the partial matches once for each of them, so a
section with k matching rules returned each of its results k times.
---
 src/search.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/search.cpp b/src/search.cpp
index 74f588a..63dde7c 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -392,9 +392,9 @@ SearchPaths Search::matchNext( const SearchPath &path, const unsigned long int l
 
     for ( const auto &result : mr ) {
         if ( result.next.size() > 0 ) {
-            SearchPaths nextResults = matchNext( mr, level );
-            for ( const auto &result : nextResults )
-                results.push_back( result );
+            SearchPaths nextResults = matchNext( result, level );
+            for ( const auto &next : nextResults )
+                results.push_back( next );
         }
         else {
             results.push_back( result );
-- 
2.43.0


From 8de2b45feca6b6f3e1a6148e1e674bc06e1d1f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 11/32] fix: reject a meta rule line that holds anything but
 references

Such a line was dropped without a word, so the grammar lost a rule.
---
 src/grammar.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grammar.cpp b/src/grammar.cpp
index f6ad6ea..37aad05 100644
--- a/src/grammar.cpp
+++ b/src/grammar.cpp
@@ -122,6 +122,8 @@ void Grammar::initialize( std::istream &is )
                     MetaRule rule( line );
                     mrules.push_back( rule );
                 }
+                else
+                    throw std::runtime_error("Grammar-Syntax-Error");
             }
             // otherwise it is a standard rule line
             else {
-- 
2.43.0


From 5fef88e6fb246a7362e687208a3fd6461dd7ae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 12/32] fix: free the Lexicon when getLexiconPtr fails to load
 it

---
 src/as_wrapper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/as_wrapper.cpp b/src/as_wrapper.cpp
index 622798b..cfede41 100644
--- a/src/as_wrapper.cpp
+++ b/src/as_wrapper.cpp
@@ -17,6 +17,7 @@
 #include <iostream>
 #include <string>
 #include <vector>
+#include <memory>
 #include <cstdlib>
 #include <algorithm>
 
@@ -562,7 +563,7 @@ void *getLexiconPtr( char *lexicon_in, char **err_msg )
     try {
         std::string s( lexicon_in );
         std::istringstream iss( s );
-        Lexicon* lexicon = new Lexicon;
+        std::unique_ptr<Lexicon> lexicon( new Lexicon );
         try {
             boost::archive::text_iarchive ia(iss);
             ia >> *lexicon;
@@ -581,7 +582,7 @@ void *getLexiconPtr( char *lexicon_in, char **err_msg )
             lexicon->name( "query-lex" );
             lexicon->initialize( iss );
         }
-        return static_cast<void*>(lexicon);
+        return static_cast<void*>(lexicon.release());
     }
     catch ( std::runtime_error &e ) {
         *err_msg = strdup( e.what() );
-- 
2.43.0


From c8daa2744eae3fede02e4102a09e2cd61009d5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 13/32] fix: do not take braces for letters

Inside a bracket expression \p{L} is not a property but the characters
p, {, L and }, so the tokenizer took braces for letters of a word and cut
'{*' in two or glued '{D' together.  Use the class names instead.
---
 src/tokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 857304d..f62c445 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -193,7 +193,7 @@ std::vector<Token> Tokenizer::getTokens( std::string str ) {
     //  \\d+[/,\\.]\\d+ |       -- numbers and fractions  99/99, 99.99, 99,99
     //  \\d+ |                  -- integers 99
     //  \\<[[:alpha:]]+\\> |    -- words
-    //  [\\p{L}\\p{Nd}]+ |      -- utf8 letter followed by digits
+    //  [[:L*:][:Nd:]]+ |       -- utf8 letter followed by digits
     //  [[:alpha:]\\d]+ |       -- letter followed by digits  A1, B99
     //  (?:(?!_)\\w)+ |         -- any other utf8 letters, marks and digits
     //                          -- nothing, if it starts with a separator
@@ -203,7 +203,7 @@ std::vector<Token> Tokenizer::getTokens( std::string str ) {
     //  \xe2\x80\x94 |          -- utf8 emdash
     //  $                       -- or end of string
     // )
-    std::string regex = "^\\s*(?:\xe2\x80\x94\\s*)*(" + lex_.regex() + "\\d+[/,\\.]\\d+|\\d+|\\<[[:alpha:]]+\\>|[\\p{L}\\p{Nd}]+|[[:alpha:]\\d]+|(?:(?!_)\\w)+|)([-&\\s\\|[:punct:]\\W]+|\xe2\x80\x94|$)";
+    std::string regex = "^\\s*(?:\xe2\x80\x94\\s*)*(" + lex_.regex() + "\\d+[/,\\.]\\d+|\\d+|\\<[[:alpha:]]+\\>|[[:L*:][:Nd:]]+|[[:alpha:]\\d]+|(?:(?!_)\\w)+|)([-&\\s\\|[:punct:]\\W]+|\xe2\x80\x94|$)";
 
     boost::u32regex re = boost::make_u32regex( regex, boost::regex::icase );
 
-- 
2.43.0


From 59834483e2e55a7230910931fa1a2afe4af0c3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 14/32] fix: accept a LexEntry: line in a lexicon without a
 locale

The lexicon loader takes lines that start with LEXENTRY: or LexEntry:, and
upper-cases them only when it has a locale. Without one, LexEntry took the
LexEntry: prefix for the word and shifted the other fields by one.
---
 src/lexentry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexentry.cpp b/src/lexentry.cpp
index 56a787a..6203c0d 100644
--- a/src/lexentry.cpp
+++ b/src/lexentry.cpp
@@ -124,7 +124,7 @@ LexEntry::LexEntry(const std::string &line)
 
     std::stringstream buffer(line);
     std::getline(buffer, in_word, '\t');
-    if (in_word == "LEXENTRY:")
+    if (in_word == "LEXENTRY:" or in_word == "LexEntry:")
         std::getline(buffer, in_word, '\t');
     std::getline(buffer, in_stdword, '\t');
     std::getline(buffer, in_type, '\t');
-- 
2.43.0


From 6bf421502675c5858952484d6b87889580b7b2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 15/32] fix: reject a LexEntry: line before the lexicon header

The entry prefix may be written LEXENTRY: or LexEntry:, but only the first
was noticed before the header; an entry with the second was dropped silently.
---
 src/lexicon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 4c304bf..62e69b4 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -96,7 +96,7 @@ void Lexicon::initialize( std::istream &is ) {
 
     // read the header and skip any
     while (is and line.substr(0,8) != "LEXICON:") {
-        if (line.substr(0,9) == "LEXENTRY:") {
+        if (line.substr(0,9) == "LEXENTRY:" or line.substr(0,9) == "LexEntry:") {
             throw std::runtime_error("Lexicon-LexEntry-Before-Lexicon");
         }
         getLine( is, line );
-- 
2.43.0


From 64854d1878d98b35c472fe16e1c5d2789e0b0530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 16/32] fix: compose the letters that upper-casing left
 decomposed

Upper-casing can leave a sequence that composes, like the I and combining
dot above that a lower-cased Turkish dotted I turns into. Such a word did
not match the same word written in upper case, and a lexicon that held it
changed when it was written out and loaded again.
---
 src/utils.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index 209e5b7..f926ac1 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -70,6 +70,16 @@ std::string Utils::upperCaseUTF8( const std::string &str, const std::string loc
     // uppercase
     source.toUpper(locale);
 
+    // upper-case letters may compose where the lower-case ones did not,
+    // like an I followed by a combining dot above
+    UErrorCode errorCode = U_ZERO_ERROR;
+    const icu::Normalizer2 *norm = icu::Normalizer2::getNFCInstance( errorCode );
+    if ( U_SUCCESS(errorCode) ) {
+        UnicodeString composed = norm->normalize( source, errorCode );
+        if ( U_SUCCESS(errorCode) )
+            source = composed;
+    }
+
     // UTF-16 UnicodeString -> UTF-8 std::string
     std::string result;
     source.toUTF8String(result);
-- 
2.43.0


From fdec43bc9c36f1e2e83524e111bf01e5b8e3f241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 17/32] fix: release the trie nodes when adding a word fails

---
 src/trie.cpp     | 2 +-
 src/trieutf8.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trie.cpp b/src/trie.cpp
index ba31c82..964fd36 100644
--- a/src/trie.cpp
+++ b/src/trie.cpp
@@ -34,8 +34,8 @@ void Trie::addWord( std::string word ) {
                 _children[ word[0] ]->addWord( subword );
         } else {
             Trie *tmp = new Trie( word.size() == 1 );
-            tmp->addWord( subword );
             _children[ word[0] ] = tmp;
+            tmp->addWord( subword );
         }
     }
 }
diff --git a/src/trieutf8.cpp b/src/trieutf8.cpp
index b2a145b..15139ab 100644
--- a/src/trieutf8.cpp
+++ b/src/trieutf8.cpp
@@ -37,8 +37,8 @@ void TrieUtf8::addWord( const std::string &word ) {
         }
         else {
             TrieUtf8 *tmp = new TrieUtf8( it == end );
-            tmp->addWord( subword );
             _children[ c ] = tmp;
+            tmp->addWord( subword );
         }
     }
 }
-- 
2.43.0


From f4ddccb6d9eea7137810fbab858bbbb60127d3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 18/32] fix: report a failed read instead of using a truncated
 lexicon or grammar

---
 src/as_wrapper.cpp | 2 ++
 src/grammar.cpp    | 3 +++
 src/inclass.cpp    | 2 ++
 src/lexentry.cpp   | 1 +
 src/lexicon.cpp    | 3 +++
 src/metarule.cpp   | 1 +
 src/rule.cpp       | 1 +
 src/token.cpp      | 1 +
 8 files changed, 14 insertions(+)

diff --git a/src/as_wrapper.cpp b/src/as_wrapper.cpp
index cfede41..fe58402 100644
--- a/src/as_wrapper.cpp
+++ b/src/as_wrapper.cpp
@@ -662,6 +662,8 @@ char * serialize_lexicon( char *lexicon_in, char **err_msg )
 
         // get the serialized lexicon text and return it
         std::string clex = ofs.str();
+        if ( ofs.fail() )
+            throw std::runtime_error("Lexicon-Write-Error");
         if (clex.size() == 0) {
             *err_msg = strdup( "Compiled lexicon should not be size=0!" );
             return NULL;
diff --git a/src/grammar.cpp b/src/grammar.cpp
index 37aad05..ee23c0c 100644
--- a/src/grammar.cpp
+++ b/src/grammar.cpp
@@ -137,6 +137,9 @@ void Grammar::initialize( std::istream &is )
             }
         }
     }
+    if ( is.bad() )
+        throw std::runtime_error( "Grammar-Read-Error" );
+
     // save the last section we read in
     if (gotSection.length() > 0) {
         if ( ruleType == ISMETA ) {
diff --git a/src/inclass.cpp b/src/inclass.cpp
index 68c351d..9ccd871 100644
--- a/src/inclass.cpp
+++ b/src/inclass.cpp
@@ -120,6 +120,7 @@ std::set<InClass::Type> InClass::asType(const std::string &s) {
     InClass::Type t;
     std::set<InClass::Type> ret;
     std::stringstream buffer(s);
+    buffer.exceptions( std::ios::badbit );
     std::string word;
     while (true) {
         std::getline(buffer, word, ',');
@@ -535,6 +536,7 @@ InClass::Lang InClass::asLang(const std::string &s) {
 std::set<InClass::AttachType> InClass::asAttachType(const std::string &s) {
     std::set<InClass::AttachType> type;
     std::stringstream buffer(s);
+    buffer.exceptions( std::ios::badbit );
     std::string word;
     while (true) {
         std::getline(buffer, word, ',');
diff --git a/src/lexentry.cpp b/src/lexentry.cpp
index 6203c0d..66f9dd5 100644
--- a/src/lexentry.cpp
+++ b/src/lexentry.cpp
@@ -123,6 +123,7 @@ LexEntry::LexEntry(const std::string &line)
     std::string in_attached;
 
     std::stringstream buffer(line);
+    buffer.exceptions( std::ios::badbit );
     std::getline(buffer, in_word, '\t');
     if (in_word == "LEXENTRY:" or in_word == "LexEntry:")
         std::getline(buffer, in_word, '\t');
diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 62e69b4..b617382 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -27,6 +27,8 @@
 
 static std::istream &getLine( std::istream &is, std::string &line ) {
     std::getline( is, line );
+    if ( is.bad() )
+        throw std::runtime_error("Lexicon-Read-Error");
     if ( not line.empty() and line.back() == '\r' )
         line.pop_back();
     return is;
@@ -111,6 +113,7 @@ void Lexicon::initialize( std::istream &is ) {
     //std::cout << "\t" << line << "\n";
 
     std::stringstream buffer(line);
+    buffer.exceptions( std::ios::badbit );
     std::string term;
     std::getline(buffer, term, '\t');
     ++cnt;
diff --git a/src/metarule.cpp b/src/metarule.cpp
index c45b930..c63904b 100644
--- a/src/metarule.cpp
+++ b/src/metarule.cpp
@@ -19,6 +19,7 @@
 MetaRule::MetaRule( const std::string &line ) {
     std::string token;
     std::stringstream buffer(line);
+    buffer.exceptions( std::ios::badbit );
 
     auto re_meta = boost::make_u32regex( "@([\\w_]+)" );
     boost::smatch what;
diff --git a/src/rule.cpp b/src/rule.cpp
index a1fd1b8..99d5532 100644
--- a/src/rule.cpp
+++ b/src/rule.cpp
@@ -21,6 +21,7 @@
 Rule::Rule( const std::string &line ) : score_(0.0) {
     std::string token;
     std::stringstream buffer(line);
+    buffer.exceptions( std::ios::badbit );
 
     // else read normal rule here
     int state = 0;
diff --git a/src/token.cpp b/src/token.cpp
index b418e99..14ef0c5 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -33,6 +33,7 @@ Token::Token(std::string text) {
     std::string in_attached;
 
     std::stringstream buffer(text);
+    buffer.exceptions( std::ios::badbit );
     std::getline(buffer, in_word, '\t');
     if (in_word == "TOKEN:")
         std::getline(buffer, in_word, '\t');
-- 
2.43.0


From 318d088218aa2669c7915439425b592acf1dcefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:04 +0000
Subject: [PATCH 19/32] fix: do not step or read past the end of malformed
 UTF-8

---
 src/utf8iterator.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/utf8iterator.cpp b/src/utf8iterator.cpp
index a705831..14b7d9a 100644
--- a/src/utf8iterator.cpp
+++ b/src/utf8iterator.cpp
@@ -11,6 +11,11 @@ const unsigned char kFourthBitMask = 16; // 0001000
 const unsigned char kFifthBitMask = 8; // 0000100
 
 
+static bool isContinuation( char c ) {
+    return ( c & ( kFirstBitMask | kSecondBitMask ) ) == kFirstBitMask;
+}
+
+
 
 Utf8Iterator::Utf8Iterator(std::string::const_iterator it) :
 mStringIterator(it),
@@ -79,7 +84,11 @@ Utf8Iterator& Utf8Iterator::operator++()
         }
     }
  
-    mStringIterator += offset;
+    // a malformed text may end or go on with another code point before
+    // the last octet, only step over octets that belong to this one
+    do {
+        ++mStringIterator;
+    } while ( --offset > 0 and isContinuation( *mStringIterator ) );
  
 
     return *this;
@@ -137,6 +146,16 @@ void Utf8Iterator::CalculateCurrentCodePoint() const
  
     char firstByte = *mStringIterator;
  
+    // the octets of a malformed text do not make up a code point
+    if ( firstByte & kFirstBitMask ) {
+        int octets = firstByte & kThirdBitMask ? ( firstByte & kFourthBitMask ? 4 : 3 ) : 2;
+        for ( int i = 1; i < octets; ++i )
+            if ( not isContinuation( *( mStringIterator + i ) ) ) {
+                mCurrentValue = 0xFFFD;
+                return;
+            }
+    }
+
     // This means the first byte has a value greater than 127,
     // and so is beyond the ASCII range.
     if ( firstByte & kFirstBitMask ) {
-- 
2.43.0


From 9905a81253a3415adf02c6813d3c8ab128d5bfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:18 +0000
Subject: [PATCH 20/32] fix: compute the MD5 round functions F and G of RFC
 1321

---
 src/md5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/md5.cpp b/src/md5.cpp
index 65153e0..6587fa1 100644
--- a/src/md5.cpp
+++ b/src/md5.cpp
@@ -60,11 +60,11 @@ documentation and/or software.
 
 // F, G, H and I are basic MD5 functions.
 inline MD5::uint4 MD5::F( uint4 x, uint4 y, uint4 z ) {
-    return ( ( x & y ) | ~x ) & z;
+    return ( x & y ) | ( ~x & z );
 }
 
 inline MD5::uint4 MD5::G( uint4 x, uint4 y, uint4 z ) {
-    return ( ( x & z ) | y ) & ~z;
+    return ( x & z ) | ( y & ~z );
 }
 
 inline MD5::uint4 MD5::H( uint4 x, uint4 y, uint4 z ) {
-- 
2.43.0


From c09b99b3faa7c9a3eb137c2706a64fd2a0f5f9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:45 +0000
Subject: [PATCH 21/32] fix: unit words lost in 12 sample grammars that name an
 unknown output class

---
 data/sample/andorra.gmr       | 2 +-
 data/sample/austria.gmr       | 2 +-
 data/sample/belgium.gmr       | 2 +-
 data/sample/france.gmr        | 2 +-
 data/sample/germany.gmr       | 2 +-
 data/sample/liechtenstein.gmr | 2 +-
 data/sample/luxembourg.gmr    | 2 +-
 data/sample/monaco.gmr        | 2 +-
 data/sample/netherlands.gmr   | 2 +-
 data/sample/norway.gmr        | 2 +-
 data/sample/sweden.gmr        | 2 +-
 data/sample/switzerland.gmr   | 2 +-
 12 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/data/sample/andorra.gmr b/data/sample/andorra.gmr
index 92956fc..35720c5 100644
--- a/data/sample/andorra.gmr
+++ b/data/sample/andorra.gmr
@@ -51,7 +51,7 @@ NUMBER DASH NUMBER -> HOUSE IGNORE HOUSE -> 0.5
 
 [unit]
 UNITH UNITT -> UNITH UNITT -> 0.8
-UNITH WORD -> UNITH UNIT -> 0.7
+UNITH WORD -> UNITH UNITT -> 0.7
 UNITH NUMBER -> UNITH UNITT -> 0.7
 UNITH MIXED -> UNITH UNITT -> 0.7
 UNITH WORD WORD -> UNITH UNITT UNITT -> 0.4
diff --git a/data/sample/austria.gmr b/data/sample/austria.gmr
index 7a0898d..ca5be30 100644
--- a/data/sample/austria.gmr
+++ b/data/sample/austria.gmr
@@ -54,7 +54,7 @@ NUMBER PUNCT NUMBER -> HOUSE IGNORE IGNORE -> 0.7
 
 [unit]
 UNITH UNITT -> UNITH UNITT -> 0.8
-UNITH WORD -> UNITH UNIT -> 0.7
+UNITH WORD -> UNITH UNITT -> 0.7
 UNITH NUMBER -> UNITH UNITT -> 0.7
 UNITH MIXED -> UNITH UNITT -> 0.7
 UNITH WORD WORD -> UNITH UNITT UNITT -> 0.4
diff --git a/data/sample/belgium.gmr b/data/sample/belgium.gmr
index 8ed85df..0214cbe 100644
--- a/data/sample/belgium.gmr
+++ b/data/sample/belgium.gmr
@@ -51,7 +51,7 @@ NUMBER NUMBER -> HOUSE UNITT -> 0.2
 
 [unit]
 UNITH NUMBER -> UNITH UNITT -> 0.7
-UNITH NUMBER SINGLE -> UNITH UNITT SINGLE -> 0.7
+UNITH NUMBER SINGLE -> UNITH UNITT UNITT -> 0.7
 UNITH WORD -> UNITH UNITT -> 0.7
 UNITH MIXED -> UNITH UNITT -> 0.7
 
diff --git a/data/sample/france.gmr b/data/sample/france.gmr
index 2803745..edeb325 100644
--- a/data/sample/france.gmr
+++ b/data/sample/france.gmr
@@ -52,7 +52,7 @@ NUMBER DASH NUMBER -> HOUSE IGNORE UNITT -> 0.7
 
 [unit]
 UNITH UNITT -> UNITH UNITT -> 0.8
-UNITH WORD -> UNITH UNIT -> 0.7
+UNITH WORD -> UNITH UNITT -> 0.7
 UNITH NUMBER -> UNITH UNITT -> 0.7
 UNITH MIXED -> UNITH UNITT -> 0.7
 UNITH WORD WORD -> UNITH UNITT UNITT -> 0.4
diff --git a/data/sample/germany.gmr b/data/sample/germany.gmr
index 51667aa..42000b4 100644
--- a/data/sample/germany.gmr
+++ b/data/sample/germany.gmr
@@ -61,7 +61,7 @@ NUMBER SINGLE SINGLE -> HOUSE HOUSE HOUSE -> 0.7
 
 [unit]
 UNITH UNITT -> UNITH UNITT -> 0.8
-UNITH WORD -> UNITH UNIT -> 0.7
+UNITH WORD -> UNITH UNITT -> 0.7
 UNITH NUMBER -> UNITH UNITT -> 0.7
 UNITH MIXED -> UNITH UNITT -> 0.7
 UNITH WORD WORD -> UNITH UNITT UNITT -> 0.4
diff --git a/data/sample/liechtenstein.gmr b/data/sample/liechtenstein.gmr
index caab9d4..444e9c1 100644
--- a/data/sample/liechtenstein.gmr
+++ b/data/sample/liechtenstein.gmr
@@ -53,7 +53,7 @@ NUMBER SINGLE -> HOUSE HOUSE -> 0.6
 NUMBER DOUBLE -> HOUSE HOUSE -> 0.5
 
 [unit]
-UNITH WORD -> UNITH UNIT -> 0.7
+UNITH WORD -> UNITH UNITT -> 0.7
 UNITH NUMBER -> UNITH UNITT -> 0.7
 UNITH NUMBER SINGLE -> UNITH UNITT UNITT -> 0.7
 UNITH NUMBER DOUBLE -> UNITH UNITT UNITT -> 0.7
diff --git a/data/sample/luxembourg.gmr b/data/sample/luxembourg.gmr
index 52c9874..e5ca41d 100644
--- a/data/sample/luxembourg.gmr
+++ b/data/sample/luxembourg.gmr
@@ -64,7 +64,7 @@ NUMBER SINGLE SINGLE -> HOUSE HOUSE HOUSE -> 0.7
 
 [unit]
 UNITH UNITT -> UNITH UNITT -> 0.8
-UNITH WORD -> UNITH UNIT -> 0.7
+UNITH WORD -> UNITH UNITT -> 0.7
 UNITH NUMBER -> UNITH UNITT -> 0.7
 UNITH MIXED -> UNITH UNITT -> 0.7
 UNITH WORD WORD -> UNITH UNITT UNITT -> 0.4
diff --git a/data/sample/monaco.gmr b/data/sample/monaco.gmr
index 89edc96..7a8edcd 100644
--- a/data/sample/monaco.gmr
+++ b/data/sample/monaco.gmr
@@ -52,7 +52,7 @@ NUMBER DASH NUMBER -> HOUSE IGNORE UNITT -> 0.7
 
 [unit]
 UNITH UNITT -> UNITH UNITT -> 0.8
-UNITH WORD -> UNITH UNIT -> 0.7
+UNITH WORD -> UNITH UNITT -> 0.7
 UNITH NUMBER -> UNITH UNITT -> 0.7
 UNITH MIXED -> UNITH UNITT -> 0.7
 UNITH WORD WORD -> UNITH UNITT UNITT -> 0.4
diff --git a/data/sample/netherlands.gmr b/data/sample/netherlands.gmr
index cd8559e..4c8c69a 100644
--- a/data/sample/netherlands.gmr
+++ b/data/sample/netherlands.gmr
@@ -81,7 +81,7 @@ NUMBER SINGLE SINGLE -> HOUSE HOUSE HOUSE -> 0.7
 
 [unit]
 UNITH UNITT -> UNITH UNITT -> 0.8
-UNITH WORD -> UNITH UNIT -> 0.7
+UNITH WORD -> UNITH UNITT -> 0.7
 UNITH NUMBER -> UNITH UNITT -> 0.7
 UNITH MIXED -> UNITH UNITT -> 0.7
 UNITH WORD WORD -> UNITH UNITT UNITT -> 0.4
diff --git a/data/sample/norway.gmr b/data/sample/norway.gmr
index 9aee673..fea8fb0 100644
--- a/data/sample/norway.gmr
+++ b/data/sample/norway.gmr
@@ -58,7 +58,7 @@ NUMBER SINGLE SINGLE -> HOUSE HOUSE HOUSE -> 0.7
 
 [unit]
 UNITH UNITT -> UNITH UNITT -> 0.8
-UNITH WORD -> UNITH UNIT -> 0.7
+UNITH WORD -> UNITH UNITT -> 0.7
 UNITH NUMBER -> UNITH UNITT -> 0.7
 UNITH MIXED -> UNITH UNITT -> 0.7
 UNITH WORD WORD -> UNITH UNITT UNITT -> 0.4
diff --git a/data/sample/sweden.gmr b/data/sample/sweden.gmr
index f9d435e..1346845 100644
--- a/data/sample/sweden.gmr
+++ b/data/sample/sweden.gmr
@@ -52,7 +52,7 @@ NUMBER -> HOUSE -> 0.5
 
 [unit]
 UNITH UNITT -> UNITH UNITT -> 0.8
-UNITH WORD -> UNITH UNIT -> 0.7
+UNITH WORD -> UNITH UNITT -> 0.7
 UNITH NUMBER -> UNITH UNITT -> 0.7
 UNITH MIXED -> UNITH UNITT -> 0.7
 UNITH WORD WORD -> UNITH UNITT UNITT -> 0.4
diff --git a/data/sample/switzerland.gmr b/data/sample/switzerland.gmr
index 2b50f78..f2e8915 100644
--- a/data/sample/switzerland.gmr
+++ b/data/sample/switzerland.gmr
@@ -58,7 +58,7 @@ NUMBER DOUBLE -> HOUSE HOUSE -> 0.5
 
 [unit]
 UNITH UNITT -> UNITH UNITT -> 0.8
-UNITH WORD -> UNITH UNIT -> 0.7
+UNITH WORD -> UNITH UNITT -> 0.7
 UNITH NUMBER -> UNITH UNITT -> 0.7
 UNITH MIXED -> UNITH UNITT -> 0.7
 UNITH WORD WORD -> UNITH UNITT UNITT -> 0.4
-- 
2.43.0


From a4416f841c1a502b1719acf5c676676acd85e6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:49 +0000
Subject: [PATCH 22/32] fix: as_parse leaks its array when an address has no
 tokens

tokens_free() returned early without releasing the array.
---
 src/address_standardizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/address_standardizer.c b/src/address_standardizer.c
index 32b0ba7..6465986 100644
--- a/src/address_standardizer.c
+++ b/src/address_standardizer.c
@@ -88,7 +88,7 @@ void tokens_free(TOKENS *tokens, int nrec)
 {
     int i;
 
-    if ( nrec < 1 || ! tokens ) return;
+    if ( ! tokens ) return;
     for ( i=0; i<nrec; ++i ) {
         if ( tokens[i].word ) free( tokens[i].word );
         if ( tokens[i].inclass ) free( tokens[i].inclass );
-- 
2.43.0


From a63aa5bbe7d5c4ceaf3c9f955d40f8a3f59d5a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:32 +0000
Subject: [PATCH 23/32] fix: the SQL functions leak the error messages of the
 library

The messages are allocated with malloc() and were never released.
---
 src/address_standardizer.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/address_standardizer.c b/src/address_standardizer.c
index 6465986..df9865c 100644
--- a/src/address_standardizer.c
+++ b/src/address_standardizer.c
@@ -121,8 +121,11 @@ Datum as_compile_lexicon(PG_FUNCTION_ARGS)
     DBG("lexicon:\n '%s'", lexicon);
 
     cstr = serialize_lexicon( lexicon, &err_msg );
-    if ( err_msg != NULL )
-        elog(ERROR, "std_standardize threw an error: %s", err_msg);
+    if ( err_msg != NULL ) {
+        pstr = pstrdup(err_msg);
+        free(err_msg);
+        elog(ERROR, "std_standardize threw an error: %s", pstr);
+    }
 
     if (cstr) {
         pstr = pstrdup(cstr);
@@ -236,8 +239,10 @@ Datum as_standardize(PG_FUNCTION_ARGS)
 #endif
     DBG("back from std_standardize");
 
-    if ( err_msg != NULL )
+    if ( err_msg != NULL ) {
         DBG("std_standardize threw an error: %s", err_msg);
+        free(err_msg);
+    }
 
     values = (char **) palloc(17 * sizeof(char *));
     for (k=0; k<17; k++) {
@@ -354,8 +359,10 @@ Datum as_parse(PG_FUNCTION_ARGS)
 #endif
         DBG("back from std_parse_address, nrec=%d", nrec);
 
-        if ( err_msg != NULL )
+        if ( err_msg != NULL ) {
             DBG("std_parse_address threw an error: %s", err_msg);
+            free(err_msg);
+        }
 
         DBG("calling get_call_result_type");
         if (get_call_result_type( fcinfo, NULL, &tuple_desc ) != TYPEFUNC_COMPOSITE ) {
@@ -494,8 +501,10 @@ Datum as_match(PG_FUNCTION_ARGS)
         tokens = std_match_address(address, grammar, lexicon, locale, filter, &nrec, &err_msg);
         DBG("back from std_match_address");
 
-        if ( err_msg != NULL )
+        if ( err_msg != NULL ) {
             DBG("std_match_address threw an error: %s", err_msg);
+            free(err_msg);
+        }
 
         DBG("calling get_call_result_type");
         if (get_call_result_type( fcinfo, NULL, &tuple_desc ) != TYPEFUNC_COMPOSITE ) {
-- 
2.43.0


From 35bc44fd4fadd7d66324eb22722473226810883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 24/32] fix: results of the C interface with strings missing
 when memory runs out

---
 src/as_wrapper.cpp | 93 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 68 insertions(+), 25 deletions(-)

diff --git a/src/as_wrapper.cpp b/src/as_wrapper.cpp
index fe58402..c64d487 100644
--- a/src/as_wrapper.cpp
+++ b/src/as_wrapper.cpp
@@ -36,6 +36,43 @@
 #include "address_standardizer.h"
 
 
+// the results are C structures: their strings are copied with strdup(),
+// and what has been copied is released if one of them can not be
+
+static char *copy( const std::string &text )
+{
+    char *result = strdup( text.c_str() );
+    if ( ! result )
+        throw std::bad_alloc();
+    return result;
+}
+
+struct FreeResult {
+    std::size_t size;
+    void operator()( STDADDR *p ) const {
+        char *fields[] = { p->building, p->house_num, p->predir, p->qual,
+            p->pretype, p->name, p->suftype, p->sufdir, p->ruralroute,
+            p->extra, p->city, p->prov, p->country, p->postcode, p->box,
+            p->unit, p->pattern };
+        for ( char *field : fields )
+            free( field );
+        free( p );
+    }
+    void operator()( TOKENS *p ) const {
+        for ( std::size_t i=0; i<size; i++ ) {
+            free( p[i].word );
+            free( p[i].inclass );
+            free( p[i].attached );
+        }
+        free( p );
+    }
+    void operator()( MTOKEN *p ) const {
+        for ( std::size_t i=0; i<size; i++ )
+            free( p[i].tokens );
+        free( p );
+    }
+};
+
 STDADDR *standardize_addr( char *address_in, Grammar & grammar, Lexicon & lexicon, char *locale_in, char *filter_in, char **err_msg);
 
 
@@ -199,74 +236,75 @@ STDADDR *standardize_addr( char *address_in, Grammar & grammar, Lexicon & lexico
                 *err_msg = strdup( "Out of memory!" );
                 return NULL;
             }
+            std::unique_ptr<STDADDR, FreeResult> guard( stdaddr, FreeResult{ 1 } );
             // assign strings with content and trim off the trailing blank
             if ( v_stdaddr[0].size() > 0 ) {
                 v_stdaddr[0].resize(v_stdaddr[0].size()-1);
-                stdaddr->building   = strdup( v_stdaddr[0].c_str() );
+                stdaddr->building   = copy( v_stdaddr[0] );
             }
             if ( v_stdaddr[1].size() > 0 ) {
                  v_stdaddr[1].resize(v_stdaddr[1].size()-1);
-                stdaddr->house_num  = strdup( v_stdaddr[1].c_str() );
+                stdaddr->house_num  = copy( v_stdaddr[1] );
             }
             if ( v_stdaddr[2].size() > 0 ) {
                 v_stdaddr[2].resize(v_stdaddr[2].size()-1);
-                stdaddr->predir     = strdup( v_stdaddr[2].c_str() );
+                stdaddr->predir     = copy( v_stdaddr[2] );
             }
             if ( v_stdaddr[3].size() > 0 ) {
                 v_stdaddr[3].resize(v_stdaddr[3].size()-1);
-                stdaddr->qual       = strdup( v_stdaddr[3].c_str() );
+                stdaddr->qual       = copy( v_stdaddr[3] );
             }
             if ( v_stdaddr[4].size() > 0 ) {
                 v_stdaddr[4].resize(v_stdaddr[4].size()-1);
-                stdaddr->pretype    = strdup( v_stdaddr[4].c_str() );
+                stdaddr->pretype    = copy( v_stdaddr[4] );
             }
             if ( v_stdaddr[5].size() > 0 ) {
                 v_stdaddr[5].resize(v_stdaddr[5].size()-1);
-                stdaddr->name       = strdup( v_stdaddr[5].c_str() );
+                stdaddr->name       = copy( v_stdaddr[5] );
             }
             if ( v_stdaddr[6].size() > 0 ) {
                 v_stdaddr[6].resize(v_stdaddr[6].size()-1);
-                stdaddr->suftype    = strdup( v_stdaddr[6].c_str() );
+                stdaddr->suftype    = copy( v_stdaddr[6] );
             }
             if ( v_stdaddr[7].size() > 0 ) {
                 v_stdaddr[7].resize(v_stdaddr[7].size()-1);
-                stdaddr->sufdir     = strdup( v_stdaddr[7].c_str() );
+                stdaddr->sufdir     = copy( v_stdaddr[7] );
             }
             if ( v_stdaddr[8].size() > 0 ) {
                 v_stdaddr[8].resize(v_stdaddr[8].size()-1);
-                stdaddr->ruralroute = strdup( v_stdaddr[8].c_str() );
+                stdaddr->ruralroute = copy( v_stdaddr[8] );
             }
             if ( v_stdaddr[9].size() > 0 ) {
                 v_stdaddr[9].resize(v_stdaddr[9].size()-1);
-                stdaddr->extra      = strdup( v_stdaddr[9].c_str() );
+                stdaddr->extra      = copy( v_stdaddr[9] );
             }
             if ( v_stdaddr[10].size() > 0 ) {
                 v_stdaddr[10].resize(v_stdaddr[10].size()-1);
-                stdaddr->city       = strdup( v_stdaddr[10].c_str() );
+                stdaddr->city       = copy( v_stdaddr[10] );
             }
             if ( v_stdaddr[11].size() > 0 ) {
                 v_stdaddr[11].resize(v_stdaddr[11].size()-1);
-                stdaddr->prov       = strdup( v_stdaddr[11].c_str() );
+                stdaddr->prov       = copy( v_stdaddr[11] );
             }
             if ( v_stdaddr[12].size() > 0 ) {
                 v_stdaddr[12].resize(v_stdaddr[12].size()-1);
-                stdaddr->country    = strdup( v_stdaddr[12].c_str() );
+                stdaddr->country    = copy( v_stdaddr[12] );
             }
             if ( v_stdaddr[13].size() > 0 ) {
                 v_stdaddr[13].resize(v_stdaddr[13].size()-1);
-                stdaddr->postcode   = strdup( v_stdaddr[13].c_str() );
+                stdaddr->postcode   = copy( v_stdaddr[13] );
             }
             if ( v_stdaddr[14].size() > 0 ) {
                 v_stdaddr[14].resize(v_stdaddr[14].size()-1);
-                stdaddr->box        = strdup( v_stdaddr[14].c_str() );
+                stdaddr->box        = copy( v_stdaddr[14] );
             }
             if ( v_stdaddr[15].size() > 0 ) {
                 v_stdaddr[15].resize(v_stdaddr[15].size()-1);
-                stdaddr->unit       = strdup( v_stdaddr[15].c_str() );
+                stdaddr->unit       = copy( v_stdaddr[15] );
             }
-            stdaddr->pattern        = strdup( matched.c_str() );
+            stdaddr->pattern        = copy( matched );
             *err_msg = (char *)0;
-            return stdaddr;
+            return guard.release();
         }
         // we failed to match
         *err_msg = (char *)0;
@@ -373,6 +411,8 @@ TOKENS *parse_addr( char *address_in, Lexicon & lexicon, char *locale_in, char *
             return NULL;
         }
 
+        std::unique_ptr<TOKENS, FreeResult> guard( tokens, FreeResult{ cnt } );
+
         int i = 0;
         int j = 0;
         int k = 0;
@@ -380,9 +420,9 @@ TOKENS *parse_addr( char *address_in, Lexicon & lexicon, char *locale_in, char *
             for ( const auto &t : phrase ) {
                 tokens[k].pat = i;
                 tokens[k].seq = j;
-                tokens[k].word = strdup( t.text().c_str() );
-                tokens[k].inclass = strdup( InClass::asString( t.inclass() ).c_str() );
-                tokens[k].attached = strdup( InClass::asString( t.attached() ).c_str() );
+                tokens[k].word = copy( t.text() );
+                tokens[k].inclass = copy( InClass::asString( t.inclass() ) );
+                tokens[k].attached = copy( InClass::asString( t.attached() ) );
                 ++j;
                 ++k;
             }
@@ -391,7 +431,7 @@ TOKENS *parse_addr( char *address_in, Lexicon & lexicon, char *locale_in, char *
 
         *nrec = static_cast<int>( cnt );
         *err_msg = (char *)0;
-        return tokens;
+        return guard.release();
     }
     catch ( std::runtime_error &e ) {
         *err_msg = strdup( e.what() );
@@ -498,9 +538,11 @@ MTOKEN *match_addr( char *address_in, Grammar & grammar, Lexicon & lexicon, char
             return NULL;
         }
 
+        std::unique_ptr<MTOKEN, FreeResult> guard( tokens, FreeResult{ toks.size() } );
+
         int i = 0;
         for ( const auto &t : toks ) {
-            tokens[i].tokens = strdup( t.matched.c_str() );
+            tokens[i].tokens = copy( t.matched );
             tokens[i].score = t.score;
             tokens[i].nrules = t.nrules;
             ++i;
@@ -508,7 +550,7 @@ MTOKEN *match_addr( char *address_in, Grammar & grammar, Lexicon & lexicon, char
 
         *nrec = static_cast<int>( toks.size() );
         *err_msg = (char *)0;
-        return tokens;
+        return guard.release();
     }
     catch ( std::runtime_error &e ) {
         *err_msg = strdup( e.what() );
@@ -669,8 +711,9 @@ char * serialize_lexicon( char *lexicon_in, char **err_msg )
             return NULL;
         }
 
+        char *result = copy( clex );
         *err_msg = (char *)0;
-        return strdup(clex.c_str());
+        return result;
 
     }
     catch ( std::runtime_error &e ) {
-- 
2.43.0


From 57f131cf801f68bda6d4a1060cc8754434bcb3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 25/32] fix: an address ICU has no memory for is taken for an
 empty one

---
 src/utils.cpp | 11 +++++++++++
 src/utils.h   |  1 +
 2 files changed, 12 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index f926ac1..01c3e2e 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -42,6 +42,13 @@ unsigned long int Utils::getCount( const std::string key ) {
 using icu::UnicodeSet;
 using icu::UnicodeString;
 
+// a string that ICU has no memory for becomes a bogus one, which then
+// reads as an empty text
+static void checkMemory( const UnicodeString &text, UErrorCode errorCode ) {
+    if ( text.isBogus() || errorCode == U_MEMORY_ALLOCATION_ERROR )
+        throw std::bad_alloc();
+}
+
 std::string Utils::unaccentUTF8( const std::string &str ) {
     // UTF-8 std::string -> UTF-16 UnicodeString
     UnicodeString source = UnicodeString::fromUTF8(icu::StringPiece(str));
@@ -69,6 +76,7 @@ std::string Utils::upperCaseUTF8( const std::string &str, const std::string loc
 
     // uppercase
     source.toUpper(locale);
+    checkMemory( source, U_ZERO_ERROR );
 
     // upper-case letters may compose where the lower-case ones did not,
     // like an I followed by a combining dot above
@@ -79,6 +87,7 @@ std::string Utils::upperCaseUTF8( const std::string &str, const std::string loc
         if ( U_SUCCESS(errorCode) )
             source = composed;
     }
+    checkMemory( source, errorCode );
 
     // UTF-16 UnicodeString -> UTF-8 std::string
     std::string result;
@@ -98,6 +107,7 @@ std::string Utils::normalizeUTF8( const std::string &str, UErrorCode &errorCode)
 
     // get instance of normalizer
     const icu::Normalizer2 &norm(*icu::Normalizer2::getNFCInstance( errorCode ));
+    checkMemory( source, errorCode );
     if ( U_FAILURE(errorCode) )
         return result;
 
@@ -105,6 +115,7 @@ std::string Utils::normalizeUTF8( const std::string &str, UErrorCode &errorCode)
 
     // normalize the string
     source = norm.normalize(source, errorCode);
+    checkMemory( source, errorCode );
     if ( U_FAILURE(errorCode) )
         return result;
 
diff --git a/src/utils.h b/src/utils.h
index 5d34ba8..a47dcb0 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -16,6 +16,7 @@
 
 #include <string>
 #include <map>
+#include <new>
 #include <unicode/utypes.h>
 #include <unicode/uchar.h>
 #include <unicode/locid.h>
-- 
2.43.0


From fef6bfbfb627338639073b653f0f44e1d8d674ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 26/32] fix: compare-lexicon looked every word up under the
 literal key "key" and so never reported a difference

---
 tools/compare-lexicon | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/compare-lexicon b/tools/compare-lexicon
index 65c0ebc..6411c5f 100755
--- a/tools/compare-lexicon
+++ b/tools/compare-lexicon
@@ -30,7 +30,7 @@ while ( my $line = <LEX> ) {
         my @fields = split(/\t/, $line);
         shift @fields if $fields[0] eq 'LEXENTRY:';
         my $key = shift @fields;
-        push @{$a{key}}, \@fields;
+        push @{$a{$key}}, \@fields;
     }
     else {
         die "ERROR: logic error processing '$fa'!\n";
@@ -57,7 +57,7 @@ while ( my $line = <LEX> ) {
         my @fields = split(/\t/, $line);
         shift @fields if $fields[0] eq 'LEXENTRY:';
         my $key = shift @fields;
-        if ( ! defined $a{key} ) {
+        if ( ! defined $a{$key} ) {
             print "$line\n";
         }
     }
-- 
2.43.0


From dc84ee66293c56d680ed4a8710c77693522204c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 27/32] fix: convert-pagc-lex-gaz took a standard word for a
 regular expression

---
 tools/convert-pagc-lex-gaz | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/convert-pagc-lex-gaz b/tools/convert-pagc-lex-gaz
index 9b52659..1a31e80 100755
--- a/tools/convert-pagc-lex-gaz
+++ b/tools/convert-pagc-lex-gaz
@@ -41,7 +41,7 @@ sub readfile {
             $lexi{$key} = [$f[1], $f[3], [$types[$f[2]]]];
         }
         else {
-            if ($lexi{$key}[1] =~ /^$f[3]$/i) {
+            if ($lexi{$key}[1] =~ /^\Q$f[3]\E$/i) {
                 push @{$lexi{$key}[2]}, $types[$f[2]];
             }
             else {
-- 
2.43.0


From 685b1a7af3c1a3badb79b8ecc617418472da2705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 28/32] fix: a copy of a grammar referred to the sections of
 its original

---
 src/grammar.cpp | 23 +++++++++++++++++++++++
 src/grammar.h   |  3 ++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/grammar.cpp b/src/grammar.cpp
index ee23c0c..a883a07 100644
--- a/src/grammar.cpp
+++ b/src/grammar.cpp
@@ -45,6 +45,29 @@ Grammar::Grammar( std::istream &is )
 }
 
 
+// the references of the sections are pointers to other sections of the same
+// grammar, so a copy needs to point them to its own
+
+Grammar::Grammar( const Grammar &grammar )
+    : metas_(grammar.metas_), rules_(grammar.rules_),
+      sectionIndex_(grammar.sectionIndex_), md5_(grammar.md5_),
+      issues_(grammar.issues_), status_(grammar.status_)
+{
+    updatePointers();
+}
+
+
+Grammar &Grammar::operator=( const Grammar &grammar )
+{
+    metas_ = grammar.metas_;
+    rules_ = grammar.rules_;
+    sectionIndex_ = grammar.sectionIndex_;
+    md5_ = grammar.md5_;
+    updatePointers();
+    return *this;
+}
+
+
 void Grammar::initialize( std::istream &is )
 {
     std::string grammar_in;
diff --git a/src/grammar.h b/src/grammar.h
index 7effbbb..6f4172a 100644
--- a/src/grammar.h
+++ b/src/grammar.h
@@ -64,7 +64,8 @@ public:
         CHECK_WARN  =  1
     } Status;
 
-    Grammar( const Grammar& ) = default;
+    Grammar( const Grammar &grammar );
+    Grammar &operator=( const Grammar &grammar );
     explicit Grammar( const std::string &file );
     explicit Grammar( const char *grammar_in );
     explicit Grammar( std::istream &is );
-- 
2.43.0


From de9d95527b290a6d0c203f26162d2eb2423f9691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 29/32] fix: unaccentUTF8 leaves its transliterator behind on
 every call

---
 src/utils.cpp | 9 ++++++---
 src/utils.h   | 2 ++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 01c3e2e..6802845 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -55,10 +55,13 @@ std::string Utils::unaccentUTF8( const std::string &str ) {
 
     // Transliterate UTF-16 UnicodeString
     UErrorCode status = U_ZERO_ERROR;
-    icu::Transliterator *accentsConverter = icu::Transliterator::createInstance(
-        "NFD; [:M:] Remove; NFC", UTRANS_FORWARD, status);
+    std::unique_ptr<icu::Transliterator> accentsConverter( icu::Transliterator::createInstance(
+        "NFD; [:M:] Remove; NFC", UTRANS_FORWARD, status) );
+    checkMemory( source, status );
+    if ( U_FAILURE(status) || ! accentsConverter )
+        throw std::runtime_error( std::string("Transliterator-") + u_errorName(status) );
     accentsConverter->transliterate(source);
-    // TODO: handle errors with status
+    checkMemory( source, status );
 
     // UTF-16 UnicodeString -> UTF-8 std::string
     std::string result;
diff --git a/src/utils.h b/src/utils.h
index a47dcb0..23c9c7a 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -16,7 +16,9 @@
 
 #include <string>
 #include <map>
+#include <memory>
 #include <new>
+#include <stdexcept>
 #include <unicode/utypes.h>
 #include <unicode/uchar.h>
 #include <unicode/locid.h>
-- 
2.43.0


From 03a18e5b8b33730747173f82103192d6445e2c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:31 +0000
Subject: [PATCH 30/32] fix: a full database memory left the standardizer cache
 with a callback that fails

---
 src/std_pg_hash.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/std_pg_hash.c b/src/std_pg_hash.c
index 0fd0ddb..d08e5f7 100644
--- a/src/std_pg_hash.c
+++ b/src/std_pg_hash.c
@@ -450,6 +450,9 @@ AddToStdPortalCache(StdPortalCache *STDCache, char *lexicon, char * grammar)
 
     DBG("Adding item to STD cache ('%s', '%s') index %d", lex_md5, gmr_md5, STDCache->NextSlot);
 
+    /* until the callback is registered nothing else frees the std object */
+    PG_TRY();
+    {
 #if PGSQL_VERSION < 96
     STDMemoryContext = MemoryContextCreate(T_AllocSetContext, 8192,
                                            &StdCacheContextMethods,
@@ -465,7 +468,6 @@ AddToStdPortalCache(StdPortalCache *STDCache, char *lexicon, char * grammar)
     callback = MemoryContextAlloc(STDMemoryContext, sizeof(MemoryContextCallback));
     callback->arg = (void*)(STDMemoryContext);
     callback->func = StdCacheDelete;
-    MemoryContextRegisterResetCallback(STDMemoryContext, callback);
 #endif
 
 
@@ -481,6 +483,20 @@ AddToStdPortalCache(StdPortalCache *STDCache, char *lexicon, char * grammar)
     DBG("Adding standardizer obj (%p) to hash table with MemoryContext key (%p)", (void*) std, (void*) STDMemoryContext);
 
     AddStdHashEntry(STDMemoryContext, std);
+    }
+    PG_CATCH();
+    {
+        std_free( std );
+        free( lex_md5 );
+        free( gmr_md5 );
+        PG_RE_THROW();
+    }
+    PG_END_TRY();
+
+#if PGSQL_VERSION >= 96
+    /* the callback needs the hash entry, so it is registered after it */
+    MemoryContextRegisterResetCallback(STDMemoryContext, callback);
+#endif
 
     /* change memory contexts so the pstrdup are allocated in the
      * context of this cache item. They will be freed when the
-- 
2.43.0


From 3e15d38e2cf3e73c1be279197ee435869b21929b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:47 +0000
Subject: [PATCH 31/32] fix: the standardizer cache compared and stored a
 fingerprint that was not made

getMd5() returns NULL when there is no memory. For the lexicon this was
compared and copied as a text, which ends the server process; for the grammar
an empty text stood in for it, so that another grammar's standardizer could be
found. The call now ends with an error.
---
 src/std_pg_hash.c | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/std_pg_hash.c b/src/std_pg_hash.c
index d08e5f7..647ec1f 100644
--- a/src/std_pg_hash.c
+++ b/src/std_pg_hash.c
@@ -104,6 +104,7 @@ static bool IsInStdPortalCache(StdPortalCache *STDCache,  char *lexicon, char *g
 static STANDARDIZER *GetStdFromPortalCache(StdPortalCache *STDCache,  char *lexicon, char *grammar);
 static void AddToStdPortalCache(StdPortalCache *STDCache, char *lexicon, char *grammar);
 static StdPortalCache *GetStdPortalCache(FunctionCallInfo fcinfo);
+static bool GetStdMd5s(char *lexicon, char *grammar, char **lex_md5, char **gmr_md5);
 
 
 /* standardizer api functions */
@@ -290,6 +291,21 @@ DeleteStdHashEntry(MemoryContext mcxt)
 }
 
 
+/* the fingerprints that identify a cache item; false if there is no memory */
+static bool
+GetStdMd5s(char *lexicon, char *grammar, char **lex_md5, char **gmr_md5)
+{
+    *lex_md5 = getMd5( lexicon );
+    *gmr_md5 = getMd5( grammar );
+    if (*lex_md5 && *gmr_md5)
+        return TRUE;
+
+    free( *lex_md5 );
+    free( *gmr_md5 );
+    return FALSE;
+}
+
+
 /* public api */
 bool
 IsInStdCache(StdCache STDCache, char *lexicon, char *grammar) {
@@ -307,13 +323,9 @@ IsInStdPortalCache(StdPortalCache *STDCache,  char *lexicon, char *grammar)
 
     DBG("Enter: IsInStdPortalCache");
 
-    lex_md5 = getMd5( lexicon );
+    if (!GetStdMd5s( lexicon, grammar, &lex_md5, &gmr_md5 ))
+        elog(ERROR, "IsInStdPortalCache: could not allocate memory (md5)");
     DBG("lex_md5: %p", lex_md5);
-
-    gmr_md5 = getMd5( grammar );
-    DBG("gmr_md5: %p", gmr_md5);
-    if ( gmr_md5 == NULL )
-        gmr_md5 = strdup("");
     DBG("gmr_md5: %p", gmr_md5);
 
     DBG("Looping through %d STD_CACHE_ITEMS", STD_CACHE_ITEMS);
@@ -356,10 +368,8 @@ GetStdFromPortalCache(StdPortalCache *STDCache,  char *lexicon, char *grammar)
 
     DBG("Enter: GetStdFromPortalCache");
 
-    lex_md5 = getMd5( lexicon );
-    gmr_md5 = getMd5( grammar );
-    if ( gmr_md5 == NULL )
-        gmr_md5 = strdup("");
+    if (!GetStdMd5s( lexicon, grammar, &lex_md5, &gmr_md5 ))
+        elog(ERROR, "GetStdFromPortalCache: could not allocate memory (md5)");
 
     for (i=0; i<STD_CACHE_ITEMS; i++) {
         StdCacheItem *ci = &STDCache->StdCache[i];
@@ -432,12 +442,11 @@ AddToStdPortalCache(StdPortalCache *STDCache, char *lexicon, char * grammar)
         elog(ERROR,
             "AddToStdPortalCache: could not create address standardizer");
 
-    DBG("Calling getMd5( lexicon )");
-    lex_md5 = getMd5( lexicon );
-    DBG("Calling getMd5( grammar )");
-    gmr_md5 = getMd5( grammar );
-    if ( gmr_md5 == NULL )
-        gmr_md5 = strdup("");
+    DBG("Calling GetStdMd5s( lexicon, grammar )");
+    if (!GetStdMd5s( lexicon, grammar, &lex_md5, &gmr_md5 )) {
+        std_free(std);
+        elog(ERROR, "AddToStdPortalCache: could not allocate memory (md5)");
+    }
 
     /* if the NextSlot in the cache is used, then delete it */
     if (STDCache->StdCache[STDCache->NextSlot].std != NULL) {
-- 
2.43.0


From 20a96af087699e57c1822f3c85cf64091f9ce3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:47 +0000
Subject: [PATCH 32/32] fix: an error message that was not made was copied when
 a standardizer failed to load

If there is no memory for the message of the library it is NULL, and pstrdup()
of it ends the server process.
---
 src/std_pg_hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/std_pg_hash.c b/src/std_pg_hash.c
index 647ec1f..f0a3b60 100644
--- a/src/std_pg_hash.c
+++ b/src/std_pg_hash.c
@@ -628,7 +628,7 @@ CreateStd(char *lexicon, char *grammar)
     DBG("Back from (%p) getLexiconPtr( lexicon, err_msg )", lex);
     if (!lex) {
         std_free(std);
-        pmsg = pstrdup(err_msg);
+        pmsg = pstrdup(err_msg ? err_msg : "out of memory");
         free(err_msg);
         elog(ERROR, "CreateStd: failed to load Lexicon (%s)", pmsg);
     }
@@ -639,7 +639,7 @@ CreateStd(char *lexicon, char *grammar)
     DBG("Back from (%p) getGrammarPtr( grammar, err_msg )", gmr);
     if (!gmr) {
         std_free(std);      /* this also frees the Lexicon */
-        pmsg = pstrdup(err_msg);
+        pmsg = pstrdup(err_msg ? err_msg : "out of memory");
         free(err_msg);
         elog(ERROR, "CreateStd: failed to load Gammar (%s)", pmsg);
     }
-- 
2.43.0

