// Positive controls for the initialisation rule; Good classes must not be reported.
#include <string.h>
#include <stdint.h>
#include <string>
#include <vector>
namespace wit {
    struct Pod { int x, y; };
    struct BadInit { int a, b; Pod pod; std::string s; explicit BadInit(int v); };
    BadInit::BadInit(int v) : a(v) { pod.x = 3; }
    struct BadPath { int *p; explicit BadPath(int v); };
    BadPath::BadPath(int v) { if (v > 3) { p = new int(v); } }
    struct BadRead { int m, n; explicit BadRead(int v); };
    BadRead::BadRead(int v) { m = n + v; n = v; }
    int bad_local(int a) { int x; if (a > 3) { x = a; } return x; }

    struct GoodInit { int a, b; Pod pod; uint32_t arr[8]; std::vector<int> v; const char *s; explicit GoodInit(int v); void init(int v); void later(); };
    GoodInit::GoodInit(int v) : a(v), s(NULL) { init(v); later(); }
    void GoodInit::init(int v) { b = v; pod = Pod(); for (int i = 0; i < 8; ++i) { arr[i] = v; } }
    void GoodInit::later() { if (a > b) { s = "x"; } }
    struct GoodSet { Pod p; int q[4]; double d; GoodSet() { memset(this, 0, sizeof(*this)); } };
    struct GoodDelegate { int a; GoodSet g; GoodDelegate() : GoodDelegate(3) { } explicit GoodDelegate(int v) : a(v) { } };
    void use_init() { BadInit a(3); BadPath b(3); BadRead c(4); GoodInit d(3); GoodSet e; GoodDelegate f; (void)bad_local(3); (void)a; }
}
