// P22: the tries.
#include "tries.h"
#include "trieutf8.h"

void byteTries( mc::Ex &x );        // c_P22b.cpp: the two headers do not go together

static void explore( mc::Ex &x ) {
    tr::explore<TrieUtf8,tr::U8>( x, "code point trie", false );
    byteTries( x );
}

int main( int argc, char **argv ) {
    mc::Opts o;
    o.id = "P22";
    o.rule = "one evaluation per set or sequence of words and kind of trie, added in two orders and asked every probe; distinct outcomes are distinct expressions";
    return mc::main( argc, argv, o, explore );
}
