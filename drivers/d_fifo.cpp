// Instantiates queues, scratch pad, callable, signal and utility templates.
#include <stored.h>
#include <atomic>

namespace drv {
struct Elem {
	int a;
	char b[5];
};

struct Item {
	int a = 0;
	int b = 0;
	Item() {}
	Item(Item const& x) : a(x.a), b(x.b) {}
	Item& operator=(Item const& x)
	{
		a = x.a;
		b = x.b;
		return *this;
	}
	~Item() {}
};
}

template class stored::Buffer<uint8_t, 0>;
template class stored::Buffer<uint8_t, 16>;
template class stored::Buffer<drv::Elem, 16>;
template class stored::Fifo<uint8_t, 0, false>;
template class stored::Fifo<uint8_t, 16, false>;
template class stored::Fifo<uint8_t, 16, true>;
template class stored::Fifo<drv::Elem, 16, true>;
template class stored::Fifo<drv::Elem, 0, false>;
template class stored::Fifo<uint8_t, 200, true>;
template class stored::Fifo<drv::Item, 16, true>;
template class stored::Fifo<drv::Item, 0, false>;
template class stored::Buffer<drv::Elem, 0>;
template class stored::PopIterator<stored::Fifo<uint8_t, 16, true>>;
template class stored::PopIterator<stored::MessageFifo<64, 4, true>>;
template class stored::BufferView<stored::Buffer<uint8_t, 17>>;
template class stored::BufferView<stored::Buffer<drv::Elem, 17>>;
template class stored::BufferView<stored::Buffer<uint8_t, 201>>;
template class stored::MessageFifo<0, 0, false>;
template class stored::MessageFifo<64, 4, false>;
template class stored::MessageFifo<64, 4, true>;
template class stored::FifoLoopback1<64, 4>;
template class stored::FifoLoopback<64, 4>;
template class stored::ScratchPad<>;
template class stored::ScratchPad<0xffffffffu>;
template class stored::Signal<void*, void*, int>;
template class stored::Stream<false>;
#ifdef STORED_HAVE_HEATSHRINK
template class stored::Stream<true>;
#endif

namespace drv {
struct F {
	std::string s;
	int operator()(int x) const { return x + (int)s.size(); }
};

void callable(F& fr)
{
	typedef stored::Callable<int(int)>::type C;
	C c0;
	C c1(F{});
	C c2(fr);
	C c3([](int x) { return x; });
	std::function<int(int)> sf;
	C c4(sf);
	C c5(c4);
	C c6(std::move(c5));
	c6 = c1;
	c6 = std::move(c2);
	c6 = F{};
	c6 = fr;
	c6 = sf;
	c6 = nullptr;
	(void)c6(1);
	(void)(bool)c6;
}

template <typename F>
void fifo(F& f, typename F::type const* from, typename F::type const* to)
{
	f.emplace_back(*from);
	f.push_back(from, to);
}

template void fifo(stored::Fifo<uint8_t, 16, true>&, uint8_t const*, uint8_t const*);
template void fifo(stored::Fifo<uint8_t, 200, true>&, uint8_t const*, uint8_t const*);
template void fifo(stored::Fifo<uint8_t, 0, false>&, uint8_t const*, uint8_t const*);
template void fifo(stored::Fifo<Elem, 16, true>&, Elem const*, Elem const*);
template void fifo(stored::Fifo<Elem, 0, false>&, Elem const*, Elem const*);
template void fifo(stored::Fifo<Item, 16, true>&, Item const*, Item const*);
template void fifo(stored::Fifo<Item, 0, false>&, Item const*, Item const*);

void overflow(stored::FifoLoopback1<64, 4>& l)
{
	l.setOverflowHandler([]() { return false; });
}

void msgs(stored::MessageFifo<64, 4, true>& f, stored::MessageView const* from, stored::MessageView const* to)
{
	f.push_back(from, to);
}

void spm(stored::ScratchPad<>& s)
{
	int* i = s.alloc<int>(3);
	(void)i;
	(void)s.alloc<uint64_t>();
	auto sn = s.snapshot();
	s.shrink_to_fit();
}
} // namespace drv
