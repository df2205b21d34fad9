/* C view of the library for the C++ harness: the library's headers are not valid C++. Only public API. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif

/* vector */
void *sh_vec_new(size_t item_size, size_t initial);
int sh_vec_append(void *v, const void *item, size_t n);
int sh_vec_append_ptr(void *v, const void *p);
const void *sh_vec_get(const void *v, unsigned i);
int sh_vec_reverse(void *v);
void sh_vec_free(void *v);
size_t sh_vec_count(const void *v);

/* sparse array, dictionary */
void *sh_arr_new(size_t elem, uint32_t max);
int sh_arr_set(void *a, uint32_t i, const void *v, size_t n);
const void *sh_arr_get(void *a, uint32_t i, size_t *n);
int sh_arr_free(void *a);
void *sh_dict_new(void);
int sh_dict_set(void *d, const char *k, size_t kn, const void *v, size_t vn);
void *sh_dict_get(void *d, const char *k, size_t kn, size_t *n);
int sh_dict_free(void *d);

/* strings */
int sh_endswith(const char *s, const char *suffix);
char *sh_strnstr(const char *h, const char *n, size_t len);
int sh_hash(const unsigned char *s, size_t n, char *out);
size_t sh_hash_str_size(void);
char *sh_cookie(const char *s, size_t n, const char *name);
int sh_url_decode(const char *s, char *out);

/* requests */
void sh_range(const char *v, size_t *offset, size_t *limit);
char *sh_header_raw(const char *req, size_t n, const char *name);
char *sh_header_req(const void *req, const char *name);
void *sh_req_new(void);
void sh_req_free(void *r);
int sh_parse_request(const unsigned char *b, size_t n, void *r);
int sh_parse_body(size_t received, size_t clen, const unsigned char *raw, void *r);
int sh_parse_form(void *r);
void sh_req_set_body(void *r, const void *b, size_t n);
typedef struct {
	const char *verb, *resource, *header; size_t verb_cap, resource_cap, header_len;
	const unsigned char *body; size_t body_len;
	long so[8], eo[8]; int max_matches;
	void *form;
} sh_view;
void sh_req_view(const void *r, sh_view *out);

/* templates */
void *sh_ctx_new(void);
void sh_ctx_free(void *c);
int sh_add_string(void *c, const char *name, const char *value);
int sh_add_int(void *c, const char *name, int value);
void *sh_add_array(void *c, const char *name);  /* returns a handle; free with sh_handle_free */
void sh_handle_free(void *a);
int sh_arr_add_string(void *a, const char *value);
int sh_arr_add_int(void *a, int value);
int sh_arr_add_sub(void *a, void *child);
int sh_add_sub(void *c, const char *name, void *child);
int sh_add_filter(void *c, const char *name, char *(*f)(const char *), void (*clean)(char *));
void sh_filter_cleanup(char *);
char *sh_render(void *c, const char *t, size_t n, size_t *out);
size_t sh_max_str(void);

/* responses and routes */
#define SH_SLOTS 16
#define SH_SLOT_404 15
typedef struct { const char *verb, *regex; int expected; int slot; int has_cleanup; } sh_route;
void *sh_app_new(const sh_route *routes, int n);
void sh_app_free(void *app);
void sh_app_404(void *app, int handler, int cleanup);
void *sh_generate(int fd, void *app);
void *sh_send(void *hreq);
int sh_serve(void *app, int *sock_fd, int port, int threads);

void sh_resp_set(void *resp, void *out, size_t n);
void *sh_resp_out(void *resp, size_t *n);
void sh_resp_mime(void *resp, const char *m);
const char *sh_resp_get_mime(void *resp);
int sh_resp_header(void *resp, const char *h, size_t hn, const char *v, size_t vn);
int sh_resp_raw(void *resp, const char *b, size_t n);
int sh_resp_mmap(void *resp, const char *path);
int sh_resp_render(void *resp, void *ctx, const char *path);
void *sh_resp_new(void);
void sh_resp_free(void *);
void sh_heap_cleanup(int code, void *resp);
void sh_heap_cleanup_no_check(int code, void *resp);
void sh_mmap_cleanup(int code, void *resp);
size_t sh_max_read_len(void);
size_t sh_max_request_size(void);

/* log: level in the order of the enumeration, one of several format strings */
#define SH_LEVELS 6
#define SH_LOG_KINDS 4
void sh_log(int level, int kind, const char *s, long n);
/* files */
size_t sh_file_size(const char *path);
long sh_file_date(const char *path);

/* implemented by the harness, called for handler slots */
int cb_handler(int slot, const void *req, void *resp);
void cb_cleanup(int slot, int code, void *resp);
#ifdef __cplusplus
}
#endif
