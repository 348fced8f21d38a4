// P22: the trie of bytes.
#include "tries.h"
#include "trie.h"

void byteTries( mc::Ex &x ) { tr::explore<Trie,tr::Bytes>( x, "byte trie", true ); }
