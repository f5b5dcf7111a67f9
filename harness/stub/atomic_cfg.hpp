#pragma once
// wider elements than the type needs
template <> struct atomic::atomic_type<std::uint8_t> {
    using type = std::uint32_t;
};
template <> struct atomic::atomic_type<std::int8_t> {
    using type = std::int32_t;
};
template <> struct atomic::atomic_type<std::uint16_t> {
    using type = std::uint64_t;
};
template <> struct atomic::atomic_type<bool> {
    using type = std::uint32_t;
};
template <>
constexpr inline auto atomic::alignment_of<std::uint32_t> =
    alignof(std::uint64_t);
