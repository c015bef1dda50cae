#ifndef VERIF_GCH_SMALL_VECTOR
#define VERIF_GCH_SMALL_VECTOR
#include <cstddef>
#include <vector>
#include <memory>
namespace gch
{
    template <typename T> struct default_buffer_size { static constexpr unsigned value = 4; };
    template <typename T, unsigned N = 4, typename A = std::allocator<T>>
    class small_vector : public std::vector<T, A>
    {
    public:
        using std::vector<T, A>::vector;
        using std::vector<T, A>::operator=;
        small_vector() = default;
    };
}
#endif
