// Driver: every member of the background context.
#include <nudb/nudb.hpp>

namespace nudb { namespace test {
class context_test
{
public:
    using list = context::list;
    static void m_start(context& c);
    static void m_stop_all(context& c);
    static void m_run(context& c);
    static void m_flush(context& c);
    static void m_insert(context& c, detail::store_base& s);
    static void m_erase(context& c, detail::store_base& s);
    static void m_dtor(context& c);
    static void l_push_back(list& l, detail::store_base* s);
    static void l_erase(list& l, detail::store_base* s);
    static void l_splice(list& l, list& r);
};
void context_test::m_start(context& c) { c.start(); }
void context_test::m_stop_all(context& c) { c.stop_all(); }
void context_test::m_run(context& c) { c.run(); }
void context_test::m_flush(context& c) { c.flush(); }
void context_test::m_insert(context& c, detail::store_base& s) { c.insert(s); }
void context_test::m_erase(context& c, detail::store_base& s) { c.erase(s); }
void context_test::m_dtor(context& c) { c.~context(); }
void context_test::l_push_back(list& l, detail::store_base* s) { l.push_back(s); }
void context_test::l_erase(list& l, detail::store_base* s) { l.erase(s); }
void context_test::l_splice(list& l, list& r) { l.splice(r); }
}} // nudb::test

