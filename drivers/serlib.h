// Common part of the generated S01 drivers: the operations on the serializer.
#include <GTMesh/BinarySerializer/BinarySerializer.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainer.h>
#include <GTMesh/UnstructuredMesh/MeshDataContainer/MeshDataContainerTraits/MeshDataContainerArithmeticTraits.h>
#include "valuelib.h"
// ---- the operations
struct Write {
    BinarySerializer& s; std::string how;
    template <class X> void operator()(X& x) const {
        if (how == "write") s.write(x);
        else if (how == "<<") { if (&(s << x) != &s) refuse("<<"); }
        else if (how == "const") s.write(static_cast<const X&>(x));
        else s << X(x);
    }
};
struct Read {
    BinarySerializer& s; std::string how;
    template <class X> void operator()(X& x) const { if (how == "read") s.read(x); else if (&(s >> x) != &s) refuse(">>"); }
};
struct Add { BinarySerializer::ByteContainer& c; template <class X> void operator()(X& x) const { BinarySerializer::addNext(c, x); } };
struct Next { BinarySerializer::ByteContainerIterator& it; template <class X> void operator()(X& x) const { BinarySerializer::readNext(it, x); } };
struct Base {
    BinarySerializer s;
    virtual ~Base() {}
    virtual std::string vars() = 0;
    virtual void put(int k, int q, std::istream& in) = 0;
    virtual void write(int k, int q, int w, const std::string& how) = 0;
    virtual void read(int k, int q, int w, const std::string& how) = 0;
    virtual void add(int k, int q, int w, BinarySerializer::ByteContainer& c) = 0;
    virtual void next(int k, int q, int w, BinarySerializer::ByteContainerIterator& it) = 0;
    virtual void group(int g, bool write) = 0;
    std::string reply(long made = -1, long used = -1) {
        return "{\"vars\":" + vars() + ",\"size\":" + std::to_string(s.getData().size()) + ",\"valid\":" + (s.isIteratorValid() ? "true" : "false") + ",\"made\":" + std::to_string(made) + ",\"used\":" + std::to_string(used) + "}";
    }
    std::string exec(const std::string& op, std::istream& in) {
        int k, q, w; std::string how;
        if (op == "p") { in >> k >> q; put(k, q, in); }
        else if (op == "w") { in >> k >> q >> w >> how; write(k, q, w, how); }
        else if (op == "r") { in >> k >> q >> w >> how; read(k, q, w, how); }
        else if (op == "wm") { in >> k; group(k, true); }
        else if (op == "rm") { in >> k; group(k, false); }
        else if (op == "c") {
            in >> k >> q >> w;
            BinarySerializer::ByteContainer c; add(k, q, w, c);
            auto it = c.cbegin(); next(k, 1 - q, w, it);
            return reply(c.size(), it - c.cbegin());
        } else refuse(op);
        return reply();
    }
};
