#include "mpi.h"
#include "net.h"
#include "sim.h"
#include <cstring>
#include <cxxabi.h>
#include <deque>
#include <exception>
#include <memory>
#include <string>
#include <sys/mman.h>
#include <typeinfo>
#include <ucontext.h>
#include <vector>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define FIBER_ASAN 1
#endif
#endif
#ifdef FIBER_ASAN
#include <sanitizer/common_interface_defs.h>
#endif

namespace
{
struct Message
{
	int src, dst, tag;
	std::string data;
	bool arrived = false, taken = false, sync = false;
};
enum State { READY, RECV, BARRIER, SENDING, DONE };
struct Node
{
	ucontext_t ctx;
	char* stack = nullptr;
	size_t size = 0;
	void* fake = nullptr;
	State state = READY;
	int want_src = 0, want_tag = 0;
	std::shared_ptr<Message> sending;
	bool initialised = false, finalised = false;
	unsigned barriers = 0;
};
struct Type
{
	size_t size;
	bool committed, freed;
};
struct World
{
	std::vector<Node> node;
	std::vector<Type> type;
	std::deque<std::shared_ptr<Message> > flight;   // in the order sent
	int cur = -1, slow = -1, slow_src = -1;
	int eager = 0;                                  // out of 4 messages, how many are buffered
	ucontext_t main;
	void* main_fake = nullptr;
	const void* main_bottom = nullptr;
	size_t main_size = 0;
	const std::function<void(int)>* body = nullptr;
	net::Stats st;
};
World* W = nullptr;
const size_t STACK = 512 * 1024;

void to_main()
{
	Node& n = W->node[W->cur];
#ifdef FIBER_ASAN
	__sanitizer_start_switch_fiber(n.state == DONE ? nullptr : &n.fake, W->main_bottom, W->main_size);
#endif
	swapcontext(&n.ctx, &W->main);
#ifdef FIBER_ASAN
	__sanitizer_finish_switch_fiber(W->node[W->cur].fake, &W->main_bottom, &W->main_size);
#endif
}
void entry()
{
#ifdef FIBER_ASAN
	__sanitizer_finish_switch_fiber(nullptr, &W->main_bottom, &W->main_size);
#endif
	const int me = W->cur;
	try
	{
		(*W->body)(me);
	}
	catch(MPI::Exception& e)
	{
		sim::fail("mpi:error", "node %d: %s", me, e.Get_error_string());
	}
	catch(std::exception& e)
	{
		sim::fail("mpi:exception", "node %d stops with %s: %s", me, typeid(e).name(), e.what());
	}
	W->node[me].state = DONE;
	to_main();
}
void to_node(int i)
{
	W->cur = i;
	W->st.switches++;
#ifdef FIBER_ASAN
	__sanitizer_start_switch_fiber(&W->main_fake, W->node[i].stack, W->node[i].size);
#endif
	swapcontext(&W->main, &W->node[i].ctx);
#ifdef FIBER_ASAN
	__sanitizer_finish_switch_fiber(W->main_fake, nullptr, nullptr);
#endif
}
Node& me()
{
	if(!W || W->cur < 0)
		sim::fail("mpi:harness", "MPI call outside of a node");
	return W->node[W->cur];
}
void live()
{
	Node& n = me();
	if(!n.initialised)
		throw MPI::Exception(1, "MPI call before MPI::Init");
	if(n.finalised)
		throw MPI::Exception(1, "MPI call after MPI::Finalize");
}
void pause()
{
	me().state = READY;
	to_main();
}
size_t type_size(const MPI::Datatype& t)
{
	if(t.handle < 0 || t.handle >= (int) W->type.size() || W->type[t.handle].freed)
		throw MPI::Exception(3, "invalid datatype");
	return W->type[t.handle].size;
}
size_t usable(const MPI::Datatype& t)
{
	const size_t s = type_size(t);
	if(!W->type[t.handle].committed)
		throw MPI::Exception(3, "datatype was not committed");
	return s;
}
// messages between two nodes do not overtake each other
std::shared_ptr<Message> find(int dst, int src, int tag)
{
	for(auto& m : W->flight)
		if(m->dst == dst && (src == MPI_ANY_SOURCE || m->src == src) && (tag == MPI_ANY_TAG || m->tag == tag))
		{
			if(m->arrived)
				return m;
			if(src != MPI_ANY_SOURCE)
				return nullptr;
		}
	return nullptr;
}
std::shared_ptr<Message> wait_for(int src, int tag)
{
	if(src != MPI_ANY_SOURCE && (src < 0 || src >= (int) W->node.size()))
		throw MPI::Exception(6, "invalid rank");
	for(;;)
	{
		std::shared_ptr<Message> m = find(W->cur, src, tag);
		if(m)
			return m;
		Node& n = me();
		n.state = RECV;
		n.want_src = src;
		n.want_tag = tag;
		W->st.waited++;
		to_main();
	}
}
void finish_recv(std::shared_ptr<Message> m, void* buf, size_t room, MPI::Status* s)
{
	if(m->data.size() > room)
		throw MPI::Exception(15, "message truncated");
	if(!m->data.empty())
		std::memcpy(buf, m->data.data(), m->data.size());
	if(s)
	{
		s->source = m->src;
		s->tag = m->tag;
		s->bytes = m->data.size();
	}
	m->taken = true;
	for(auto i = W->flight.begin(); i != W->flight.end(); ++i)
		if(*i == m)
		{
			W->flight.erase(i);
			break;
		}
	if(m->sync && W->node[m->src].state == SENDING && W->node[m->src].sending == m)
		W->node[m->src].state = READY;
}
}

namespace MPI
{
Intracomm COMM_WORLD;
const Errhandler ERRORS_THROW_EXCEPTIONS = Errhandler(), ERRORS_ARE_FATAL = Errhandler(), ERRORS_RETURN = Errhandler();
const Datatype DOUBLE(0), INT(1), CHAR(2), LONG(3), BYTE(4);
Datatype Datatype::Create_struct(int count, const int* lengths, const Aint* offsets, const Datatype* types)
{
	live();
	size_t end = 0;
	for(int i = 0; i < count; i++)
	{
		if(lengths[i] < 0)
			throw Exception(12, "negative block length");
		const size_t e = (size_t) offsets[i] + (size_t) lengths[i] * type_size(types[i]);
		if(e > end)
			end = e;
	}
	W->type.push_back(Type{end, false, false});
	return Datatype((int) W->type.size() - 1);
}
void Datatype::Commit()
{
	live();
	type_size(*this);
	W->type[handle].committed = true;
}
void Datatype::Free()
{
	live();
	type_size(*this);
	W->type[handle].freed = true;
	handle = -1;
}
int Status::Get_count(const Datatype& t) const
{
	const size_t s = type_size(t);
	if(s == 0)
		return 0;
	if(bytes % s)
		return -32766;   // MPI_UNDEFINED
	return (int) (bytes / s);
}
int Intracomm::Get_size() const
{
	live();
	return (int) W->node.size();
}
int Intracomm::Get_rank() const
{
	live();
	return W->cur;
}
void Intracomm::Set_errhandler(const Errhandler&) const
{
	live();
}
void Intracomm::Abort(int code) const
{
	sim::fail("mpi:abort", "node %d aborts the run with code %d", W->cur, code);
}
void Intracomm::Barrier() const
{
	live();
	Node& n = me();
	n.barriers++;
	n.state = BARRIER;
	to_main();
}
void Intracomm::Send(const void* buf, int count, const Datatype& t, int dest, int tag) const
{
	live();
	if(count < 0)
		throw Exception(2, "negative count");
	if(dest < 0 || dest >= (int) W->node.size())
		throw Exception(6, "invalid rank");
	std::shared_ptr<Message> m(new Message);
	m->src = W->cur;
	m->dst = dest;
	m->tag = tag;
	m->data.assign((const char*) buf, (size_t) count * usable(t));
	W->st.messages++;
	W->st.bytes += (long) m->data.size();
	// a standard send may or may not wait for the receiver
	m->sync = (int) sim::draw(4) >= W->eager;
	W->flight.push_back(m);
	if(m->sync)
	{
		W->st.rendezvous++;
		Node& n = me();
		n.state = SENDING;
		n.sending = m;
		to_main();
		me().sending.reset();
	}
	else
		pause();
}
void Intracomm::Recv(void* buf, int count, const Datatype& t, int source, int tag) const
{
	Status s;
	Recv(buf, count, t, source, tag, s);
}
void Intracomm::Recv(void* buf, int count, const Datatype& t, int source, int tag, Status& s) const
{
	live();
	if(count < 0)
		throw Exception(2, "negative count");
	const size_t room = (size_t) count * usable(t);
	finish_recv(wait_for(source, tag), buf, room, &s);
	pause();
}
void Intracomm::Probe(int source, int tag, Status& s) const
{
	live();
	std::shared_ptr<Message> m = wait_for(source, tag);
	s.source = m->src;
	s.tag = m->tag;
	s.bytes = m->data.size();
	pause();
}
void Intracomm::Probe(int source, int tag) const
{
	Status s;
	Probe(source, tag, s);
}
void Intracomm::Bcast(void* buf, int count, const Datatype& t, int root) const
{
	live();
	const int tag = -1000;
	if(W->cur == root)
	{
		for(int i = 0; i < (int) W->node.size(); i++)
			if(i != root)
				Send(buf, count, t, i, tag);
	}
	else
	{
		Status s;
		Recv(buf, count, t, root, tag, s);
		if(s.bytes != (size_t) count * usable(t))
			throw Exception(15, "nodes disagree on the size of a broadcast");
	}
}
bool Is_initialized()
{
	return me().initialised;
}
void Init()
{
	if(me().initialised)
		throw Exception(1, "MPI::Init called twice");
	me().initialised = true;
}
void Finalize()
{
	live();
	me().finalised = true;
}
}

namespace net
{
int rank()
{
	return W ? W->cur : -1;
}
Stats run(int nodes, const std::function<void(int)>& body)
{
	World w;
	W = &w;
	w.body = &body;
	w.node.resize((size_t) nodes);
	for(size_t s : {sizeof(double), sizeof(int), (size_t) 1, sizeof(long), (size_t) 1})
		w.type.push_back(Type{s, true, false});
	w.eager = (int) sim::draw(5);
	if(sim::chance(1, 3))
		w.slow = (int) sim::draw((uint64_t) nodes), sim::fault("node.slow");
	if(sim::chance(1, 3))
		w.slow_src = (int) sim::draw((uint64_t) nodes), sim::fault("link.slow");
	for(auto& n : w.node)
	{
		n.size = STACK;
		n.stack = (char*) mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_STACK, -1, 0);
		getcontext(&n.ctx);
		n.ctx.uc_stack.ss_sp = n.stack;
		n.ctx.uc_stack.ss_size = STACK;
		n.ctx.uc_link = nullptr;
		makecontext(&n.ctx, entry, 0);
	}
	for(long step = 0;; step++)
	{
		if(step > 200000)
			sim::fail("mpi:livelock", "the nodes are still exchanging after %ld steps", step);
		// what can happen next
		struct Ev
		{
			int node;
			std::shared_ptr<Message> msg;
		};
		std::vector<Ev> ev, late;
		int done = 0, inbarrier = 0;
		for(auto& n : w.node)
		{
			done += n.state == DONE;
			inbarrier += n.state == BARRIER;
		}
		if(done == nodes)
			break;
		if(inbarrier == nodes)
			for(auto& n : w.node)
				n.state = READY;
		else if(inbarrier && inbarrier + done == nodes)
			sim::fail("mpi:deadlock", "%d nodes wait in a barrier, %d have ended", inbarrier, done);
		for(int i = 0; i < nodes; i++)
		{
			Node& n = w.node[i];
			if(n.state == READY || (n.state == RECV && find(i, n.want_src, n.want_tag)))
				(i == w.slow ? late : ev).push_back(Ev{i, nullptr});
		}
		for(size_t i = 0; i < w.flight.size(); i++)
		{
			auto& m = w.flight[i];
			bool first = !m->arrived;
			for(size_t j = 0; first && j < i; j++)
				first = !(w.flight[j]->src == m->src && w.flight[j]->dst == m->dst && !w.flight[j]->arrived);
			if(first)
				(m->src == w.slow_src ? late : ev).push_back(Ev{-1, m});
		}
		if(ev.empty())
			ev.swap(late);
		if(ev.empty())
		{
			std::string s;
			for(int i = 0; i < nodes; i++)
			{
				static const char* names[] = {"ready", "waits for a message", "waits in a barrier", "waits for its message to be taken", "has ended"};
				s += (i ? ", node " : "node ") + std::to_string(i) + " " + names[w.node[i].state];
			}
			sim::fail("mpi:deadlock", "%s", s.c_str());
		}
		Ev& e = ev[sim::draw(ev.size())];
		if(e.msg)
			sim::ev("message %d -> %d arrives", e.msg->src, e.msg->dst);
		else
			sim::ev("node %d runs", e.node);
		sim::mix(e.msg ? 100 + (uint64_t) e.msg->src * 10 + (uint64_t) e.msg->dst : (uint64_t) e.node);
		if(e.msg)
		{
			e.msg->arrived = true;
			sim::fault("message.delayed");
		}
		else
		{
			w.node[e.node].state = READY;
			to_node(e.node);
		}
	}
	if(!w.flight.empty())
		sim::fail("mpi:unread", "%zu messages were sent and never received, the first from node %d to node %d", w.flight.size(), w.flight[0]->src,
			w.flight[0]->dst);
	for(auto& n : w.node)
		munmap(n.stack, STACK);
	W = nullptr;
	return w.st;
}
}
