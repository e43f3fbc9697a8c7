#include <iostream>
namespace std { static basic_streambuf<char> so(1),se(2),si(0); ostream cout(&so),cerr(&se),clog(&se); istream cin(&si); }
