---------------------------- MODULE MCHashTable ----------------------------
EXTENDS HashTable
Hashes == <<0, 2, 1>>        \* keys 0 and 1 collide while there are 2 buckets
Inits  == {{}, {0}, {0,2}}
=============================================================================
