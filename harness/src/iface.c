/* A C or C++ program that has nothing but the header of the library. */
#include <dcv_color_primitives.h>
#ifndef ALONE
#include <stdio.h>
#include <stddef.h>
#ifdef __cplusplus
#include <type_traits>
#define SAME(a, b) (std::is_same<decltype(a), b>::value)
#else
#define SAME(a, b) __builtin_types_compatible_p(__typeof__(a), b)
#endif

typedef char *(*describe_fn)(void);
typedef void (*unref_fn)(char *);
typedef DcpResult (*sizes_fn)(uint32_t, uint32_t, const DcpImageFormat *, const size_t *, size_t *, DcpErrorKind *);
typedef DcpResult (*convert_fn)(uint32_t, uint32_t, const DcpImageFormat *, const size_t *, const uint8_t *const *,
                                const DcpImageFormat *, const size_t *, uint8_t *const *, DcpErrorKind *);

#ifdef LINK
describe_fn describe = dcp_describe_acceleration;
unref_fn unref = dcp_unref_string;
sizes_fn sizes = dcp_get_buffers_size;
convert_fn convert = dcp_convert_image;
#else

static void number(const char *kind, const char *name, unsigned long long n)
{
    printf("{\"e\":\"number\",\"of\":\"header\",\"kind\":\"%s\",\"name\":\"%s\",\"number\":%llu}\n", kind, name, n);
}
static void layout(const char *part, size_t at, size_t size)
{
    printf("{\"e\":\"layout\",\"of\":\"header\",\"part\":\"%s\",\"at\":%zu,\"size\":%zu}\n", part, at, size);
}
static void function(const char *name, int same)
{
    printf("{\"e\":\"function\",\"name\":\"%s\",\"type\":%s}\n", name, same ? "true" : "false");
}

int main(void)
{
    number("format", "argb", DCP_PIXEL_FORMAT_ARGB);
    number("format", "bgra", DCP_PIXEL_FORMAT_BGRA);
    number("format", "bgr", DCP_PIXEL_FORMAT_BGR);
    number("format", "rgba", DCP_PIXEL_FORMAT_RGBA);
    number("format", "rgb", DCP_PIXEL_FORMAT_RGB);
    number("format", "i444", DCP_PIXEL_FORMAT_I444);
    number("format", "i422", DCP_PIXEL_FORMAT_I422);
    number("format", "i420", DCP_PIXEL_FORMAT_I420);
    number("format", "nv12", DCP_PIXEL_FORMAT_NV12);
    number("space", "rgb", DCP_COLOR_SPACE_RGB);
    number("space", "lrgb", DCP_COLOR_SPACE_LRGB);
    number("space", "bt601", DCP_COLOR_SPACE_BT601);
    number("space", "bt709", DCP_COLOR_SPACE_BT709);
    number("space", "bt601fr", DCP_COLOR_SPACE_BT601FR);
    number("space", "bt709fr", DCP_COLOR_SPACE_BT709FR);
    number("error", "invalid_value", DCP_ERROR_KIND_INVALID_VALUE);
    number("error", "invalid_operation", DCP_ERROR_KIND_INVALID_OPERATION);
    number("error", "not_enough_data", DCP_ERROR_KIND_NOT_ENOUGH_DATA);
    number("result", "ok", DCP_RESULT_OK);
    number("result", "err", DCP_RESULT_ERR);
    number("stride", "auto", DCP_STRIDE_AUTO);
    layout("pixel_format", offsetof(DcpImageFormat, pixel_format), sizeof(((DcpImageFormat *)0)->pixel_format));
    layout("color_space", offsetof(DcpImageFormat, color_space), sizeof(((DcpImageFormat *)0)->color_space));
    layout("num_planes", offsetof(DcpImageFormat, num_planes), sizeof(((DcpImageFormat *)0)->num_planes));
    layout("all", 0, sizeof(DcpImageFormat));
    function("dcp_describe_acceleration", SAME(&dcp_describe_acceleration, describe_fn));
    function("dcp_unref_string", SAME(&dcp_unref_string, unref_fn));
    function("dcp_get_buffers_size", SAME(&dcp_get_buffers_size, sizes_fn));
    function("dcp_convert_image", SAME(&dcp_convert_image, convert_fn));
    return 0;
}
#endif
#endif
