// Instantiates the pipe segments.
#include <stored.h>
#include <libstored/pipes.h>
#include <memory>
#include "VStore.h"

namespace drv {
using namespace stored::pipes;

struct Cv {
	float exit_cast(double x) const { return (float)x; }
	double entry_cast(float x) const { return (double)x; }
};

class PStore : public STORE_T(PStore, stored::VStoreDefaultFunctions, stored::VStoreBase) {
	STORE_CLASS(PStore, stored::VStoreDefaultFunctions, stored::VStoreBase)
public:
	PStore() = default;
};

struct SStr {
	std::string inject(std::string const& x) { return x; }
};

void use(PStore& store)
{
	auto a = Entry<double>{} >> Identity<double>{} >> Buffer<double>{} >> Cap{};
	a.inject(1.0);
	a.trigger();
	a.trigger(nullptr);
	(void)a.extract();
	auto ch = Entry<double>{} >> Changes<double>{a} >> Cap{};
	ch.inject(1.0);
	auto b = Entry<double>{} >> Cast<double, int>{} >> Exit{};
	(void)b.inject(1.0);
	b.trigger();
	(void)b.extract();
	a.connect(ch);
	auto o = Entry<double>{} >> Buffer<double>{} >> Exit{};
	auto o2 = Entry<double>{} >> Buffer<double>{} >> Exit{};
	o.connect(o2);
	o.disconnect();
	o >> o2;
	(void)o.inject(1.0);
	o.trigger();
	(void)o.extract();
	auto sc = Entry<double>{} >> Convert<Scale<double>>{} >> Exit{};
	sc.inject(1.0);
	auto t = Entry<double>{} >> Tee<double, 1>{a} >> Log<double>{"x"} >> Exit{};
	t.inject(1);
	t.trigger();
	auto t2 = Entry<double>{} >> Triggered<double>{a} >> Exit{};
	t2.inject(1);
	t2.trigger();
	auto m = Entry<int>{} >> Mux<double, 2>{t, t2} >> Exit{};
	m.inject(1);
	m.trigger();
	(void)m.extract();
	auto g = Entry<double>{} >> Get{store.d} >> Exit{};
	g.inject(1.0);
	g.trigger();
	(void)g.extract();
	auto s = Entry<double>{} >> Set{store.d} >> Exit{};
	s.inject(1.0);
	s.trigger();
	auto gate = Entry<bool>{} >> Buffer<bool>{} >> Cap{};
	auto tr = Entry<double>{} >> Transistor<double>{gate} >> Exit{};
	tr.inject(1.0);
	auto tri = Entry<double>{} >> Transistor<double, true>{gate} >> Exit{};
	tri.inject(1.0);
	auto c = Entry<double>{} >> Constrained{Bounded<double>{0, 1}} >> Exit{};
	c.inject(1.0);
	c.trigger();
	auto ca = Entry<int>{} >> Call{[](int x) { return x + 1; }} >> Call{[](int& x) { x++; }} >> Call{[](int) {}} >> Exit{};
	ca.inject(1);
	auto mp = Entry<size_t>{} >> Mapped<int, int, IndexMap<int, 4>>{10, 20, 30, 40} >> Cap{};
	mp.inject(1);
	auto mo = Entry<int>{} >> Mapped(make_random_map<int, int>({{1, 20}, {0, 10}, {100, 40}, {5, 30}})) >> Exit{};
	mo.inject(1);
	auto so = Entry<std::string>{} >> Buffer<std::string>{} >> Exit{};
	auto so2 = Entry<std::string>{} >> Buffer<std::string>{} >> Exit{};
	so.connect(so2);
	so.inject("x");
	auto e1 = so.extract();
	auto e2 = std::move(e1);
	std::string str;
	std::move(e2).move(str);
	(void)e2.get();
}
} // namespace drv
