// C10: data tables on disk: written, read back, damaged, and on failing devices.
#include "gen.h"
#include "DataTable.h"
#include "DataTableTFS.h"
#include <cerrno>
#include <climits>
#include <fstream>
#include <iomanip>
#include <limits>
using namespace gen;

namespace
{
struct Cell
{
	char t;
	double d;
	int i;
	std::string s;
};
struct Table
{
	std::vector<std::string> names;
	std::vector<char> types;
	std::vector<std::vector<Cell> > rows;
	std::vector<std::string> hnames;
	std::vector<Cell> head;
};
double num()
{
	switch(sim::draw(7))
	{
	case 0:
		return 0;
	case 1:
		return sim::sreal(1);
	case 2:
		return sim::sreal(1e6);
	case 3:
		return std::ldexp(1 + sim::real(0, 1), (int) sim::range(0, 2000) - 1000) * (sim::chance(1, 2) ? -1 : 1);
	case 4:
		return (double) sim::range(0, 1000);
	case 5:
		return sim::sreal(1) / 3e7;
	default:
		return -0.0;
	}
}
std::string str(bool plain)
{
	static const char tame[] = "ABCXYZabcz0189._$-+";
	static const char wild[] = "AB z01.\t@*$%#'&;,()/\\e ";
	std::string s;
	const int n = (int) (plain ? sim::range(1, 6) : sim::range(0, 8));
	for(int i = 0; i < n; i++)
		s += plain ? tame[sim::draw(sizeof tame - 1)] : wild[sim::draw(sizeof wild - 1)];
	return s;
}
Cell cell(char t)
{
	Cell c{t, 0, 0, ""};
	if(t == 'd')
		c.d = num();
	else if(t == 'i')
		c.i = sim::chance(1, 8) ? (sim::chance(1, 2) ? INT_MAX : INT_MIN) : (int) sim::range(0, 2000) - 1000;
	else
		c.s = str(sim::chance(1, 2));
	return c;
}
Table gen_table(bool strings, int maxrows)
{
	Table T;
	std::set<std::string> used;
	const int nc = (int) sim::range(1, 6), nh = (int) sim::range(0, 4), nr = (int) sim::range(0, maxrows);
	auto type = [&]() {
			return strings ? "dis"[sim::draw(3)] : "di"[sim::draw(2)];
		};
	for(int i = 0; i < nc; i++)
	{
		std::string n = str(true);
		while(!used.insert(n).second)
			n += sim::fmt("%d", i);
		T.names.push_back(n);
		T.types.push_back(type());
	}
	used.clear();
	for(int i = 0; i < nh; i++)
	{
		std::string n = str(true);
		while(!used.insert(n).second)
			n += sim::fmt("%d", i);
		T.hnames.push_back(n);
		T.head.push_back(cell(type()));
	}
	for(int r = 0; r < nr; r++)
	{
		std::vector<Cell> row;
		for(char t : T.types)
			row.push_back(cell(t));
		T.rows.push_back(row);
	}
	return T;
}
DataTable make(const Table& T)
{
	DataTable dt;
	// columns may come before or after rows
	size_t late = sim::draw(T.names.size() + 1);
	for(size_t i = 0; i < late; i++)
		dt.AddColumn(T.names[i], T.types[i]);
	for(size_t r = 0; r < T.rows.size(); r++)
		dt.AddRow();
	for(size_t i = late; i < T.names.size(); i++)
		dt.AddColumn(T.names[i], T.types[i]);
	for(size_t r = 0; r < T.rows.size(); r++)
		for(size_t i = 0; i < T.names.size(); i++)
		{
			const Cell& c = T.rows[r][i];
			if(c.t == 'd')
				dt.Set(T.names[i], r, c.d);
			else if(c.t == 'i')
				dt.Set_i(T.names[i], r, c.i);
			else
				dt.Set(T.names[i], r, c.s);
		}
	for(size_t i = 0; i < T.hnames.size(); i++)
	{
		dt.HeaderAddColumn(T.hnames[i], T.head[i].t);
		const Cell& c = T.head[i];
		if(c.t == 'd')
			dt.HeaderSet(T.hnames[i], c.d);
		else if(c.t == 'i')
			dt.HeaderSet(T.hnames[i], c.i);
		else
			dt.HeaderSet(T.hnames[i], c.s);
	}
	return dt;
}
// ten significant digits, as printed
bool printed(double a, double b)
{
	char u[64];
	snprintf(u, sizeof u, "%.10g", a);
	return a == b || strtod(u, nullptr) == b;
}
bool same(const Cell& a, DataTable& dt, const std::string& n, size_t r, bool exact)
{
	if(a.t == 'd')
		return exact ? dt.Get_d(n, r) == a.d : printed(a.d, dt.Get_d(n, r));
	if(a.t == 'i')
		return dt.Get_i(n, r) == a.i;
	return dt.Get_s(n, r) == a.s;
}
std::string show(const Cell& c)
{
	return c.t == 'd' ? sim::fmt("%.17g", c.d) : c.t == 'i' ? sim::fmt("%d", c.i) : "\"" + c.s + "\"";
}
std::string show(DataTable& dt, const std::string& n, size_t r)
{
	char t = dt.GetColumnType(n);
	return t == 'd' ? sim::fmt("%.17g", dt.Get_d(n, r)) : t == 'i' ? sim::fmt("%d", dt.Get_i(n, r)) : "\"" + dt.Get_s(n, r) + "\"";
}
void describe(const Table& T)
{
	std::string s;
	for(size_t i = 0; i < T.names.size(); i++)
		s += T.names[i] + ":" + T.types[i] + " ";
	sim::ev("table %s %zu rows", s.c_str(), T.rows.size());
	for(size_t i = 0; i < T.hnames.size(); i++)
		sim::ev("  @%s %s", T.hnames[i].c_str(), show(T.head[i]).c_str());
	for(auto& r : T.rows)
	{
		s.clear();
		for(auto& c : r)
			s += " " + show(c);
		sim::ev(" %s", s.c_str());
	}
}
void check_structure(const Table& T, DataTable& dt, const char* how)
{
	SIM_CHECK(dt.ColumnNames() == T.names, "table:columns", "%s: columns differ", how);
	for(size_t i = 0; i < T.names.size(); i++)
		SIM_CHECK(dt.GetColumnType(T.names[i]) == T.types[i] && dt.HasCol(T.names[i], T.types[i]), "table:types", "%s: column %s has type %c, written %c", how,
			T.names[i].c_str(), dt.GetColumnType(T.names[i]), T.types[i]);
	SIM_CHECK(dt.HeaderNames() == T.hnames, "table:header", "%s: header names differ", how);
	for(size_t i = 0; i < T.hnames.size(); i++)
	{
		const Cell& c = T.head[i];
		SIM_CHECK(dt.GetHeaderType(T.hnames[i]) == c.t, "table:header", "%s: header %s type", how, T.hnames[i].c_str());
		const bool ok = c.t == 'd' ? printed(c.d, dt.HeaderGet_d(T.hnames[i])) : c.t == 'i' ? dt.HeaderGet_i(T.hnames[i]) ==
			c.i : dt.HeaderGet_s(T.hnames[i]) == c.s;
		SIM_CHECK(ok, "table:header", "%s: header %s written %s read %s", how, T.hnames[i].c_str(), show(c).c_str(), dt.HeaderGetAsStr(T.hnames[i]).c_str());
	}
}
void check_all(const Table& T, DataTable& dt, const char* how)
{
	check_structure(T, dt, how);
	SIM_CHECK(dt.Length() == T.rows.size(), "table:rows", "%s: %zu rows, written %zu", how, dt.Length(), T.rows.size());
	for(size_t r = 0; r < T.rows.size(); r++)
		for(size_t i = 0; i < T.names.size(); i++)
			SIM_CHECK(same(T.rows[r][i], dt, T.names[i], r, false), "table:cell", "%s: row %zu column %s written %s read %s", how, r, T.names[i].c_str(),
				show(T.rows[r][i]).c_str(), show(dt, T.names[i], r).c_str());
	size_t n = 0;
	for(auto row : dt)
	{
		SIM_CHECK(row.GetAsStr(T.names[0]) == dt.GetAsStr(T.names[0], n), "table:iteration", "%s: row %zu of the iteration differs", how, n);
		n++;
	}
	SIM_CHECK(n == T.rows.size(), "table:iteration", "%s: the iteration visits %zu rows of %zu", how, n, T.rows.size());
}
void stream_state(std::ostream& os)
{
	if(sim::chance(1, 3))
		os << std::setprecision((int) sim::range(1, 20));
	if(sim::chance(1, 4))
		os << (sim::chance(1, 2) ? std::fixed : std::scientific);
	if(sim::chance(1, 8))
		os << std::showpos;
	if(sim::chance(1, 8))
		os << std::hex << std::showbase;
	if(sim::chance(1, 8))
		os << std::setfill('*');
	if(sim::chance(1, 8))
		os.exceptions(std::ios::badbit | std::ios::failbit);
}
void gentle(sim::DiskCfg& d)
{
	if(sim::chance(1, 2))
		d.short_io = (int) sim::range(1, 300);
	if(sim::chance(1, 3))
		d.eintr_every = (int) sim::range(2, 5);
}
}

SCENARIO(table_file)
{
	sim::context("table");
	sim::heap_config(sim::heap_random());
	Table T = gen_table(true, sim::chance(1, 10) ? 120 : 8);
	describe(T);
	DataTable dt = make(T);
	check_structure(T, dt, "in memory");
	const std::string f = sim::path("table.tfs");
	sim::DiskCfg d;
	gentle(d);
	sim::disk(d);
	const bool by_name = sim::chance(1, 2);
	if(by_name)
		DataTableWriterTFS(f).Write(dt);
	else
	{
		std::ofstream os(f);
		stream_state(os);
		const auto prec = os.precision();
		const auto fl = os.flags();
		const auto ex = os.exceptions();
		const char fill = os.fill();
		DataTableWriterTFS(&os).Write(dt);
		SIM_CHECK(os.precision() == prec && os.flags() == fl && os.exceptions() == ex && os.fill() == fill, "table:stream-state",
			"writing a table left the stream with another format");
		SIM_CHECK(os.good(), "table:write", "the stream failed while writing a table");
	}
	DataTable r1 = [&]() {
			if(sim::chance(1, 2))
				return DataTableReaderTFS(f).Read();
			std::ifstream is(f);
			return DataTableReaderTFS(&is).Read();
		}
		();
	check_all(T, r1, "read back");
	// written again: the same file, from a stream without a history
	const std::string g = sim::path("again.tfs");
	DataTableWriterTFS(g).Write(r1);
	DataTable r2 = DataTableReaderTFS(g).Read();
	check_all(T, r2, "read back twice");
	const std::string h = sim::path("third.tfs");
	DataTableWriterTFS(h).Write(r2);
	SIM_CHECK(sim::get_file(g) == sim::get_file(h), "table:rewrite", "writing the reloaded table gives another file");
	if(by_name)
		SIM_CHECK(sim::get_file(f) == sim::get_file(g), "table:rewrite", "writing the reloaded table gives another file");
	sim::nontrivial();
	sim::mix(T.rows.size() * 64 + T.names.size() * 8 + T.hnames.size());
	sim::done();
}

SCENARIO(table_damage)
{
	sim::context("table-damage");
	sim::heap_config(sim::heap_random());
	const int kind = (int) sim::draw(7);
	Table T = gen_table(kind != 1, 6);
	describe(T);
	DataTable dt = make(T);
	std::ostringstream os;
	DataTableWriterTFS(&os).Write(dt);
	const std::string intact = os.str();
	const std::string f = sim::path("table.tfs");
	sim::DiskCfg d;
	gentle(d);
	auto place = [&]() {
			size_t k = sim::draw(intact.size());
			switch(sim::draw(3))
			{
			case 0:
				return k;
			case 1:
				return intact.size() - 1 - std::min(intact.size() - 1, (size_t) sim::draw(60));
			}
			size_t nl = intact.find('\n', k);
			if(nl == std::string::npos)
				return k;
			size_t off = sim::draw(30);
			return nl >= off ? nl - off : (size_t) 0;
		};
	const size_t at = place();
	sim::ev("damage %d at byte %zu of %zu", kind, at, intact.size());
	sim::nontrivial();
	if(kind == 4 || kind == 5)
	{
		// the device fails while the table is written
		d.write_budget = (int64_t) at;
		d.write_err = kind == 4 ? ENOSPC : EIO;
		sim::disk(d);
		bool reported = false;
		try
		{
			if(sim::chance(2, 3))
				DataTableWriterTFS(f).Write(dt);
			else
			{
				std::ofstream o(f);
				DataTableWriterTFS(&o).Write(dt);
				o.close();
				reported = !o.good();
			}
		}
		catch(std::exception& e)
		{
			reported = true;
			sim::ev("reported: %s", e.what());
		}
		const std::string got = sim::get_file(f);
		SIM_CHECK(reported || got == intact, "table:hidden-write-error", "%zu of %zu bytes reached the disk and no error was reported", got.size(), intact.size());
		SIM_CHECK(intact.compare(0, got.size(), got) == 0, "table:write-prefix", "what reached the failing disk is not the beginning of the table");
		sim::mix(kind + (reported ? 10 : 0));
		sim::done();
	}
	std::string text = intact;
	bool prefix = true;
	if(kind == 0)
	{
		text = intact.substr(0, at);
		sim::fault("file.truncated");
	}
	else if(kind == 1)
	{
		// a character that cannot be part of a number, within the rows
		size_t body = intact.find("\n$");
		body = intact.find('\n', body + 1) + 1;
		if(body >= intact.size())
			sim::done();
		const size_t k = body + sim::draw(intact.size() - body);
		if(intact[k] == '\n')
			sim::done();
		text[k] = "xX@,;_\0?\"n"[sim::draw(10)];
		sim::ev("garbled byte %zu from '%c'", k, intact[k]);
		sim::fault("file.garbled");
		prefix = false;
	}
	else if(kind == 6)
	{
		// a blank within a word, outside of quotes
		std::vector<size_t> in;
		bool quoted = false;
		for(size_t k = 0; k + 1 < intact.size(); k++)
		{
			if(intact[k] == '"')
				quoted = !quoted;
			if(!quoted && !isspace((unsigned char) intact[k]) && !isspace((unsigned char) intact[k + 1]) && intact[k] != '"' && intact[k + 1] != '"')
				in.push_back(k + 1);
		}
		if(in.empty())
			sim::done();
		const size_t head = (size_t) (std::lower_bound(in.begin(), in.end(), intact.find("\n$")) - in.begin());
		const size_t k = head && sim::chance(1, 2) ? in[sim::draw(head)] : sim::pick(in);
		text.insert(k, 1, sim::chance(1, 2) ? ' ' : '\t');
		sim::ev("blank before byte %zu, '%c'", k, intact[k]);
		sim::fault("file.garbled");
	}
	else
	{
		d.read_budget = (int64_t) at;
		d.read_err = kind == 2 ? EIO : 0;
	}
	sim::put_file(f, text);
	sim::disk(d);
	bool refused = false;
	std::unique_ptr<DataTable> r;
	try
	{
		if(sim::chance(1, 2))
			r.reset(new DataTable(DataTableReaderTFS(f).Read()));
		else
		{
			std::ifstream is(f);
			r.reset(new DataTable(DataTableReaderTFS(&is).Read()));
		}
	}
	catch(std::exception& e)
	{
		refused = true;
		sim::ev("refused: %s", e.what());
	}
	if(kind == 2 && at < intact.size())
		SIM_CHECK(refused, "table:hidden-read-error", "a device error after %zu of %zu bytes was not reported", at, intact.size());
	if(!refused)
	{
		check_structure(T, *r, "damaged");
		size_t i = 0;
		for(size_t k = 0; k < r->Length(); k++, i++)
		{
			auto eq = [&](size_t j) {
					for(size_t c = 0; c < T.names.size(); c++)
						if(!same(T.rows[j][c], *r, T.names[c], k, false))
							return false;
					return true;
				};
			if(!prefix)
				while(i < T.rows.size() && !eq(i))
					i++;
			SIM_CHECK(i < T.rows.size() && eq(i), "table:invented", "a damaged table yields row %zu (%s..), which was not written", k,
				show(*r, T.names[0], k).c_str());
		}
	}
	sim::mix(kind + (refused ? 10 : 0) + (r ? r->Length() * 100 : 0));
	sim::done();
}

// one allocation fails while a table is made, written or read (C21)
SCENARIO(table_memory)
{
	sim::context("table:memory");
	sim::heap_config(sim::heap_random());
	Table T = gen_table(true, 8);
	describe(T);
	const std::string f = sim::path("table.tfs");
	uint64_t n = 0;
	auto all = [&](const char* what)
		{
			DataTable dt = make(T);
			{
				std::ostringstream os;
				DataTableWriterTFS(&os).Write(dt);
				DataTableWriterTFS(f).Write(dt);
				if(!os.good())
					throw std::bad_alloc();
			}
			DataTable r = DataTableReaderTFS(f).Read();
			n = sim::heap_count() - n;
			sim::heap_fail_clear();
			check_all(T, r, what);
		};
	n = sim::heap_count();
	all("with enough memory");
	const uint64_t total = n;
	for(int i = (int) sim::range(1, 5); i > 0; i--)
	{
		const uint64_t at = 1 + sim::draw(total);
		sim::ev("allocation %llu of %llu fails", (unsigned long long) at, (unsigned long long) total);
		sim::mix(at);
		sim::fault("allocation.failure");
		sim::heap_fail_at(at);
		try
		{
			all("without enough memory");
		}
		catch(std::exception& e)
		{
			sim::heap_fail_clear();
		}
		all("after a failure");
		sim::nontrivial();
	}
	sim::done();
}
