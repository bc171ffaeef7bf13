/* Calls the C interface through its own header: prototypes, enumerators and
 * structure layout are the ones a C program sees. */
#include <stddef.h>
#include <string.h>
#include <dcv_color_primitives.h>

typedef struct { const char *name; int value; } named;

static const named formats[] = {
    {"argb", DCP_PIXEL_FORMAT_ARGB}, {"bgra", DCP_PIXEL_FORMAT_BGRA}, {"bgr", DCP_PIXEL_FORMAT_BGR},
    {"rgba", DCP_PIXEL_FORMAT_RGBA}, {"rgb", DCP_PIXEL_FORMAT_RGB},   {"i444", DCP_PIXEL_FORMAT_I444},
    {"i422", DCP_PIXEL_FORMAT_I422}, {"i420", DCP_PIXEL_FORMAT_I420}, {"nv12", DCP_PIXEL_FORMAT_NV12},
};
static const named spaces[] = {
    {"rgb", DCP_COLOR_SPACE_RGB},         {"bt601", DCP_COLOR_SPACE_BT601},
    {"bt709", DCP_COLOR_SPACE_BT709},     {"bt601fr", DCP_COLOR_SPACE_BT601FR},
    {"bt709fr", DCP_COLOR_SPACE_BT709FR},
};
static const named errors[] = {
    {"invalid_value", DCP_ERROR_KIND_INVALID_VALUE},
    {"invalid_operation", DCP_ERROR_KIND_INVALID_OPERATION},
    {"not_enough_data", DCP_ERROR_KIND_NOT_ENOUGH_DATA},
};

static int find(const named *t, size_t n, const char *name)
{
    for (size_t i = 0; i < n; i++)
        if (!strcmp(t[i].name, name))
            return t[i].value;
    return -1;
}

int shim_format(const char *name) { return find(formats, sizeof formats / sizeof *formats, name); }
int shim_space(const char *name) { return find(spaces, sizeof spaces / sizeof *spaces, name); }
int shim_error(const char *name) { return find(errors, sizeof errors / sizeof *errors, name); }
int shim_ok(void) { return DCP_RESULT_OK; }
size_t shim_stride_auto(void) { return DCP_STRIDE_AUTO; }

typedef struct { uint32_t pf, cs, np; } desc;

/* numbers as they come: C lets any number be converted to an enumeration */
static DcpImageFormat format_of(const desc *d)
{
    DcpImageFormat f;
    f.pixel_format = (DcpPixelFormat)d->pf;
    f.color_space = (DcpColorSpace)d->cs;
    f.num_planes = d->np;
    return f;
}

int shim_convert(uint32_t w, uint32_t h, const desc *sd, const size_t *ss, const uint8_t *const *sb,
                 const desc *dd, const size_t *ds, uint8_t *const *db, int32_t *error)
{
    DcpImageFormat sf, df;
    DcpErrorKind e = (DcpErrorKind)0x5a5a5a5a;
    if (sd)
        sf = format_of(sd);
    if (dd)
        df = format_of(dd);
    DcpResult r = dcp_convert_image(w, h, sd ? &sf : NULL, ss, sb, dd ? &df : NULL, ds, db, error ? &e : NULL);
    if (error)
        *error = (int32_t)e;
    return (int)r;
}

int shim_sizes(uint32_t w, uint32_t h, const desc *d, const size_t *strides, size_t *sizes, int32_t *error)
{
    DcpImageFormat f;
    DcpErrorKind e = (DcpErrorKind)0x5a5a5a5a;
    if (d)
        f = format_of(d);
    DcpResult r = dcp_get_buffers_size(w, h, d ? &f : NULL, strides, sizes, error ? &e : NULL);
    if (error)
        *error = (int32_t)e;
    return (int)r;
}

/* the same in memory of the caller's choice */
size_t shim_build(const desc *d, unsigned char *out, size_t room)
{
    DcpImageFormat f;
    if (sizeof f > room)
        return 0;
    memset(&f, 0, sizeof f);
    f = format_of(d);
    memcpy(out, &f, sizeof f);
    return sizeof f;
}

int shim_convert_at(uint32_t w, uint32_t h, const void *sd, const size_t *ss, const uint8_t *const *sb,
                    const void *dd, const size_t *ds, uint8_t *const *db, void *error)
{
    return (int)dcp_convert_image(w, h, (const DcpImageFormat *)sd, ss, sb, (const DcpImageFormat *)dd, ds, db,
                                  (DcpErrorKind *)error);
}

int shim_sizes_at(uint32_t w, uint32_t h, const void *d, const size_t *strides, size_t *sizes, void *error)
{
    return (int)dcp_get_buffers_size(w, h, (const DcpImageFormat *)d, strides, sizes, (DcpErrorKind *)error);
}

char *shim_describe(void) { return dcp_describe_acceleration(); }
void shim_unref(char *s) { dcp_unref_string(s); }
