// the command-line tool, without the TDGL file readers (which live in a library of their own)
#include <bits/stdc++.h>
#include <cli/ftk.cpp>
namespace ftk { bool tdgl_reader::read() { return false; } }
