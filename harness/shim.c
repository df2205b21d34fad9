#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <regex.h>
#include "vector.h"
#include "simple_sparsehash.h"
#include "utils.h"
#include "types.h"
#include "parse.h"
#include "greshunkel.h"
#include "grengine.h"
#include "server.h"
#include "logging.h"
#include "shim.h"

void *sh_vec_new(size_t s, size_t n) { return vector_new(s, n); }
int sh_vec_append(void *v, const void *i, size_t n) { return vector_append(v, i, n); }
int sh_vec_append_ptr(void *v, const void *p) { return vector_append_ptr(v, p); }
const void *sh_vec_get(const void *v, unsigned i) { return vector_get(v, i); }
int sh_vec_reverse(void *v) { return vector_reverse(v); }
void sh_vec_free(void *v) { vector_free(v); }
size_t sh_vec_count(const void *v) { return ((const vector *)v)->count; }

void *sh_arr_new(size_t e, uint32_t m) { return sparse_array_init(e, m); }
int sh_arr_set(void *a, uint32_t i, const void *v, size_t n) { return sparse_array_set(a, i, v, n); }
const void *sh_arr_get(void *a, uint32_t i, size_t *n) { return sparse_array_get(a, i, n); }
int sh_arr_free(void *a) { return sparse_array_free(a); }
void *sh_dict_new(void) { return sparse_dict_init(); }
int sh_dict_set(void *d, const char *k, size_t kn, const void *v, size_t vn) { return sparse_dict_set(d, k, kn, v, vn); }
void *sh_dict_get(void *d, const char *k, size_t kn, size_t *n) { return sparse_dict_get(d, k, kn, n); }
int sh_dict_free(void *d) { return sparse_dict_free(d); }

int sh_endswith(const char *s, const char *x) { return endswith(s, x); }
char *sh_strnstr(const char *h, const char *n, size_t len) { return strnstr(h, n, len); }
int sh_hash(const unsigned char *s, size_t n, char *out) { return hash_string_fnv1a(s, n, out); }
size_t sh_hash_str_size(void) { return HASH_STR_SIZE; }
char *sh_cookie(const char *s, size_t n, const char *name) { return m38_get_cookie_value(s, n, name); }
int sh_url_decode(const char *s, char *out) { return m38_url_decode(s, out); }

void sh_range(const char *v, size_t *o, size_t *l) { m38_range_header r = m38_parse_range_header(v); *o = r.offset; *l = r.limit; }
char *sh_header_raw(const char *r, size_t n, const char *name) { return m38_get_header_value_raw(r, n, name); }
char *sh_header_req(const void *r, const char *name) { return m38_get_header_value_request(r, name); }
void *sh_req_new(void) { return calloc(1, sizeof(m38_http_request)); }
void sh_req_free(void *p) {
	m38_http_request *r = p;
	free(r->full_header);
	free(r->full_body);
	if (r->form_elements)
		sparse_dict_free(r->form_elements);
	free(r);
}
int sh_parse_request(const unsigned char *b, size_t n, void *r) { return m38_parse_request(b, n, r); }
int sh_parse_body(size_t rec, size_t cl, const unsigned char *raw, void *r) { return m38_parse_body(rec, cl, raw, r); }
int sh_parse_form(void *r) { return m38_parse_form_encoded_body(r); }
void sh_req_set_body(void *p, const void *b, size_t n) {
	m38_http_request *r = p;
	r->full_body = malloc(n + 1);
	memcpy(r->full_body, b, n);
	r->full_body[n] = 0;
	r->body_len = n;
}
void sh_req_view(const void *p, sh_view *o) {
	const m38_http_request *r = p;
	memset(o, 0, sizeof *o);
	o->verb = r->verb; o->verb_cap = sizeof r->verb;
	o->resource = r->resource; o->resource_cap = sizeof r->resource;
	o->header = r->full_header; o->header_len = r->header_len;
	o->body = r->full_body; o->body_len = r->body_len;
	o->max_matches = MAX_MATCHES;
	for (int i = 0; i < MAX_MATCHES && i < 8; i++) { o->so[i] = r->matches[i].rm_so; o->eo[i] = r->matches[i].rm_eo; }
	o->form = r->form_elements;
}

void *sh_ctx_new(void) { return gshkl_init_context(); }
void sh_ctx_free(void *c) { gshkl_free_context(c); }
int sh_add_string(void *c, const char *n, const char *v) { return gshkl_add_string(c, n, v); }
int sh_add_int(void *c, const char *n, int v) { return gshkl_add_int(c, n, v); }
void *sh_add_array(void *c, const char *n) { greshunkel_var *h = malloc(sizeof *h); *h = gshkl_add_array(c, n); return h; }
void sh_handle_free(void *a) { free(a); }
int sh_arr_add_string(void *a, const char *v) { return gshkl_add_string_to_loop(a, v); }
int sh_arr_add_int(void *a, int v) { return gshkl_add_int_to_loop(a, v); }
int sh_arr_add_sub(void *a, void *c) { return gshkl_add_sub_context_to_loop(a, c); }
int sh_add_sub(void *c, const char *n, void *ch) { return gshkl_add_sub_context(c, n, ch); }
int sh_add_filter(void *c, const char *n, char *(*f)(const char *), void (*cl)(char *)) { return gshkl_add_filter(c, n, f, cl); }
void sh_filter_cleanup(char *p) { gshkl_filter_cleanup(p); }
char *sh_render(void *c, const char *t, size_t n, size_t *o) { return gshkl_render(c, t, n, o); }
size_t sh_max_str(void) { return MAX_GSHKL_STR_SIZE; }

int __attribute__((weak)) cb_handler(int slot, const void *req, void *resp) { abort(); }
void __attribute__((weak)) cb_cleanup(int slot, int code, void *resp) { abort(); }
#define EACH(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15)
#define H(n) static int h##n(const m38_http_request *q, m38_http_response *r) { return cb_handler(n, q, r); } \
	static void c##n(const int code, m38_http_response *r) { cb_cleanup(n, code, r); }
EACH(H)
#define HN(n) h##n,
#define CN(n) c##n,
static int (*const handlers[])(const m38_http_request *, m38_http_response *) = { EACH(HN) };
static void (*const cleanups[])(const int, m38_http_response *) = { EACH(CN) };

typedef struct { m38_app *app; m38_route *routes; } app_box;
void *sh_app_new(const sh_route *rt, int n) {
	app_box *b = calloc(1, sizeof *b);
	b->routes = calloc(n ? n : 1, sizeof(m38_route));
	for (int i = 0; i < n; i++) {
		strncpy(b->routes[i].verb, rt[i].verb, sizeof b->routes[i].verb - 1);
		strncpy(b->routes[i].name, "route", sizeof b->routes[i].name - 1);
		strncpy(b->routes[i].route_match, rt[i].regex, sizeof b->routes[i].route_match - 1);
		b->routes[i].expected_matches = rt[i].expected;
		b->routes[i].handler = handlers[rt[i].slot];
		b->routes[i].cleanup = rt[i].has_cleanup ? cleanups[rt[i].slot] : NULL;
	}
	m38_app a = { .main_sock_fd = NULL, .port = 0, .num_threads = 1, .routes = b->routes, .num_routes = n };
	b->app = malloc(sizeof a);
	memcpy(b->app, &a, sizeof a);
	return b;
}
void sh_app_free(void *p) { app_box *b = p; free(b->app->r_404_route); free(b->app); free(b->routes); free(b); }
void sh_app_404(void *p, int handler, int cleanup) {
	app_box *b = p;
	if (cleanup == 2) m38_set_404_cleanup(b->app, cleanups[SH_SLOT_404]); /* clean-up first */
	if (handler) m38_set_404_handler(b->app, handlers[SH_SLOT_404]);
	if (cleanup == 1) m38_set_404_cleanup(b->app, cleanups[SH_SLOT_404]);
}
void *sh_generate(int fd, void *p) { app_box *b = p; return m38_generate_response(fd, b->app); }
void *sh_send(void *h) { return m38_send_response(h); }
int sh_serve(void *p, int *fd, int port, int threads) {
	app_box *b = p;
	b->app->main_sock_fd = fd;
	b->app->port = port;
	b->app->num_threads = threads;
	return m38_http_serve(b->app);
}

void sh_resp_set(void *p, void *out, size_t n) { m38_http_response *r = p; r->out = out; r->outsize = n; }
void *sh_resp_out(void *p, size_t *n) { m38_http_response *r = p; *n = r->outsize; return r->out; }
void sh_resp_mime(void *p, const char *m) { m38_http_response *r = p; memset(r->mimetype, 0, sizeof r->mimetype); strncpy(r->mimetype, m, sizeof r->mimetype - 1); }
const char *sh_resp_get_mime(void *p) { return ((m38_http_response *)p)->mimetype; }
int sh_resp_header(void *p, const char *h, size_t hn, const char *v, size_t vn) { return m38_insert_custom_header(p, h, hn, v, vn); }
int sh_resp_raw(void *p, const char *b, size_t n) { return m38_return_raw_buffer(b, n, p); }
int sh_resp_mmap(void *p, const char *path) { return m38_mmap_file(path, p); }
int sh_resp_render(void *p, void *ctx, const char *path) { return m38_render_file(ctx, path, p); }
void *sh_resp_new(void) { return calloc(1, sizeof(m38_http_response)); }
void sh_resp_free(void *p) { free(p); }
void sh_heap_cleanup(int code, void *p) { m38_heap_cleanup(code, p); }
void sh_heap_cleanup_no_check(int code, void *p) { m38_heap_cleanup_no_check(code, p); }
void sh_mmap_cleanup(int code, void *p) { m38_mmap_cleanup(code, p); }
void sh_log(int level, int kind, const char *s, long n) {
	static const log_level levels[] = { LOG_INFO, LOG_DEBUG, LOG_WARN, LOG_ERR, LOG_FUN, LOG_DB };
	switch (kind) {
	case 0: m38_log_msg(levels[level], "%s", s); break;
	case 1: m38_log_msg(levels[level], s); break;
	case 2: m38_log_msg(levels[level], "%i \"%s\" %zu 100%% %c", (int)n, s, (size_t)n, 'A' + (int)(n & 15)); break;
	default: m38_log_msg(levels[level], "%s|%ld|%8.3s|%x", s, n, s, (unsigned)n);
	}
}
size_t sh_file_size(const char *path) { return get_file_size(path); }
long sh_file_date(const char *path) { return get_file_creation_date(path); }
size_t sh_max_read_len(void) { return MAX_READ_LEN; }
size_t sh_max_request_size(void) { return MAX_REQUEST_SIZE; }
