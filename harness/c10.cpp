// C10: paths, wildcards, sub-queries and subscripts against the reference interpreter.
#include "qgen.hpp"
using namespace gen;

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C10").run([](vh::Harness& h, Rng& r, uint64_t) {
        DocGen dg{r};
        Fixture fx(dg.doc(), &r);
        for (int k = 0; k < 12; ++k) {
            QueryGen q{r};
            q.wildness = r.chance(25) ? 15 : 0;
            q.functions = r.chance(40);
            auto e = r.chance(70) ? q.objs((int)r.range(1, 4)) : q.query((int)r.range(1, 4));
            Printer pr;
            pr.rng = &r;
            pr.full = r.chance(20);
            pr.fieldCaseChance = 20;
            auto text = pr.p(*e);
            if (text.size() > 2000) continue;
            if (compareQuery(h, fx, *e, text, q.wildness > 0)) h.sample(text);
        }
    });
}
