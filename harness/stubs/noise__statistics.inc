// Random draws under the control of the harness: a sequence it chooses (symbolic or not).
namespace nsn { inline double (*normal)() = nullptr; inline double (*uniform)() = nullptr; inline long draws = 0; }
namespace lmb {
    inline double urand() { return nsn::uniform ? nsn::uniform() : 0.5; }
    inline double nrand() { ++nsn::draws; return nsn::normal ? nsn::normal() : 0.0; }
}
