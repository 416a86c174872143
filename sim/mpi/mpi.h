// The part of the MPI C++ bindings the code under test uses, over the simulated network.
#ifndef VSIM_MPI_H
#define VSIM_MPI_H
#include <cstddef>
#define MPI_ANY_TAG (-1)
#define MPI_ANY_SOURCE (-2)
namespace MPI
{
typedef long Aint;
class Exception
{
public:
	Exception(int c, const char* s) : code(c), text(s) {}
	int Get_error_code() const { return code; }
	const char* Get_error_string() const { return text; }
private:
	int code;
	const char* text;
};
struct Errhandler
{
};
class Datatype
{
public:
	Datatype() : handle(-1) {}
	explicit Datatype(int h) : handle(h) {}
	static Datatype Create_struct(int count, const int* lengths, const Aint* offsets, const Datatype* types);
	void Commit();
	void Free();
	int handle;
};
class Status
{
public:
	int Get_count(const Datatype& t) const;
	int Get_source() const { return source; }
	int Get_tag() const { return tag; }
	int source = -1, tag = -1;
	std::size_t bytes = 0;
};
class Intracomm
{
public:
	int Get_size() const;
	int Get_rank() const;
	void Set_errhandler(const Errhandler&) const;
	void Abort(int code) const;
	void Barrier() const;
	void Send(const void* buf, int count, const Datatype& t, int dest, int tag) const;
	void Recv(void* buf, int count, const Datatype& t, int source, int tag) const;
	void Recv(void* buf, int count, const Datatype& t, int source, int tag, Status& s) const;
	void Probe(int source, int tag, Status& s) const;
	void Probe(int source, int tag) const;
	void Bcast(void* buf, int count, const Datatype& t, int root) const;
};
extern Intracomm COMM_WORLD;
extern const Errhandler ERRORS_THROW_EXCEPTIONS, ERRORS_ARE_FATAL, ERRORS_RETURN;
extern const Datatype DOUBLE, INT, CHAR, LONG, BYTE;
bool Is_initialized();
void Init();
void Finalize();
}
#define MPI_DOUBLE (MPI::DOUBLE)
#define MPI_INT (MPI::INT)
#define MPI_CHAR (MPI::CHAR)
#define MPI_LONG (MPI::LONG)
#endif
