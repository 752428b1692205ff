PRE = '''#include <algorithm>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
%s
#define CHECK(x) do { if (!(x)) { std::printf("FAILED: %%s\\n", #x); return 1; } } while (0)
#define NEAR(a, b) CHECK(std::fabs((a) - (b)) < 1e-9 * (1 + std::fabs(b)))
typedef std::vector<double> V;
typedef std::vector<std::string> N;
%s
int main()
{
%s
  std::printf("ok\\n");
  return 0;
}
'''
def D(incs, body, pre=''):
    return PRE % (''.join('#include <%s>\n' % i for i in incs.split()), pre, body)
BUGS = []
def B(id, prop, edits, needs, breaks, demo, **k):
    if isinstance(edits, tuple): edits = [edits]
    edits = [('src/' + f, o, n) for f, o, n in edits]
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))
