// Stand-in for <generator>, for analysis with a front end whose standard library support lacks it.
#ifndef VERIF_GENERATOR_SHIM
#define VERIF_GENERATOR_SHIM
#ifndef __cpp_lib_generator
#include <coroutine>
#include <cstddef>
#include <exception>
#include <iterator>
#include <memory>
#include <ranges>
#include <type_traits>
#include <utility>
namespace std
{
    template <typename Ref_, typename V_ = void, typename A_ = void>
    class generator : public ranges::view_interface<generator<Ref_, V_, A_>>
    {
    public:
        using value_type_ = conditional_t<is_void_v<V_>, remove_cvref_t<Ref_>, V_>;
        using reference_ = conditional_t<is_reference_v<Ref_>, Ref_, Ref_ &&>;
        struct promise_type
        {
            add_pointer_t<reference_> ptr = nullptr;
            auto get_return_object() noexcept -> generator { return generator{coroutine_handle<promise_type>::from_promise(*this)}; }
            auto initial_suspend() const noexcept -> suspend_always { return {}; }
            auto final_suspend() const noexcept -> suspend_always { return {}; }
            auto yield_value(reference_ v) noexcept -> suspend_always { ptr = addressof(v); return {}; }
            auto yield_value(const remove_reference_t<reference_> & v) -> suspend_always requires is_rvalue_reference_v<reference_> { ptr = const_cast<remove_reference_t<reference_> *>(addressof(v)); return {}; }
            void await_transform() = delete;
            auto return_void() const noexcept -> void {}
            auto unhandled_exception() -> void { throw; }
        };
        struct iterator
        {
            using value_type = value_type_;
            using difference_type = ptrdiff_t;
            coroutine_handle<promise_type> h;
            auto operator*() const -> reference_ { return static_cast<reference_>(*h.promise().ptr); }
            auto operator++() -> iterator & { h.resume(); return *this; }
            auto operator++(int) -> void { h.resume(); }
            friend auto operator==(const iterator & i, default_sentinel_t) -> bool { return i.h.done(); }
        };
        generator(const generator &) = delete;
        generator(generator && o) noexcept : h(exchange(o.h, {})) {}
        auto operator=(generator o) noexcept -> generator & { swap(h, o.h); return *this; }
        ~generator() { if (h) h.destroy(); }
        auto begin() -> iterator { h.resume(); return iterator{h}; }
        auto end() const noexcept -> default_sentinel_t { return default_sentinel; }
    private:
        explicit generator(coroutine_handle<promise_type> hh) : h(hh) {}
        coroutine_handle<promise_type> h;
    };
}
#endif
#endif
