/* rjsdrv: embeds libratjs, runs a stream of cases, one fresh runtime per case,
 * and writes an event trace of what each case did.  See lib/rjs.py. */
#include "ratjs_internal.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <pthread.h>
#include <errno.h>

static __thread FILE *out;
static unsigned long gc_every, gc_tick, gc_forced;
static int opt_ext, opt_cpu = 10;
static long cur_emits, max_emits = 20000;
static size_t cur_bytes;
static char cur_id[256];

/* ---- forced collections: exactly where the engine itself may collect ---- */
void __real_rjs_gc_add (RJS_Runtime *rt, void *thing, const RJS_GcThingOps *ops);
static unsigned long gc_rng;
static int gc_on; static int gc_mode; /* 0 none, 1 every n, 2 random 1/n, 3 exactly the n-th */
void
__wrap_rjs_gc_add (RJS_Runtime *rt, void *thing, const RJS_GcThingOps *ops)
{
    int do_gc = 0;
    __real_rjs_gc_add(rt, thing, ops);
    if (gc_on && gc_mode && rt->rb.gc_enable && !rt->rb.gc_running) {
        gc_tick ++;
        if (gc_mode == 1) do_gc = (gc_tick % gc_every) == 0;
        else if (gc_mode == 2) {
            gc_rng ^= gc_rng << 13; gc_rng ^= gc_rng >> 7; gc_rng ^= gc_rng << 17;
            do_gc = (gc_rng % gc_every) == 0;
        } else do_gc = gc_tick == gc_every;
    }
    if (do_gc) {
        gc_forced ++;
        rjs_gc_run(rt);
    }
}

/* ---- value encoding ---- */
static void
put_units (const RJS_UChar *u, size_t n)
{
    size_t i;
    fputc('"', out);
    for (i = 0; i < n; i ++) {
        unsigned c = u[i];
        if (c == '"' || c == '\\') { fputc('\\', out); fputc(c, out); }
        else if (c >= 0x20 && c < 0x7f) fputc(c, out);
        else fprintf(out, "\\u%04x", c);
    }
    fputc('"', out);
}

static void
put_value (RJS_Runtime *rt, RJS_Value *v)
{
    if (rjs_value_is_undefined(rt, v)) fputs("undefined", out);
    else if (rjs_value_is_null(rt, v)) fputs("null", out);
    else if (rjs_value_is_boolean(rt, v)) fputs(rjs_value_get_boolean(rt, v) ? "true" : "false", out);
    else if (rjs_value_is_number(rt, v)) {
        double d = rjs_value_get_number(rt, v);
        uint64_t b;
        if (d != d) fputs("NaN", out);
        else if (d == (double)(int)d && !(d == 0 && signbit(d)) && fabs(d) < 1e9) fprintf(out, "%d", (int)d);
        else { memcpy(&b, &d, 8); fprintf(out, "n%016llx", (unsigned long long)b); }
    } else if (rjs_value_is_string(rt, v)) {
        const RJS_UChar *u = rjs_string_get_uchars(rt, v);
        put_units(u, rjs_string_get_length(rt, v));
    } else if (rjs_value_is_symbol(rt, v)) fputs("symbol", out);
    else if (rjs_value_is_object(rt, v)) fputs(rjs_is_callable(rt, v) ? "function" : "object", out);
    else {
        size_t top = rjs_value_stack_save(rt);
        RJS_Value *s = rjs_value_stack_push(rt);
        if (rjs_to_string(rt, v, s) == RJS_OK) {
            const RJS_UChar *u = rjs_string_get_uchars(rt, s);
            size_t n = rjs_string_get_length(rt, s), i;
            for (i = 0; i < n; i ++) fputc(u[i], out);
            fputc('n', out);
        } else fputs("?", out);
        rjs_value_stack_restore(rt, top);
    }
}

static RJS_NF(h_emit)
{
    size_t i;
    if (cur_emits ++ < max_emits) {
        fputs("e", out);
        for (i = 0; i < argc; i ++) {
            fputc(' ', out);
            put_value(rt, rjs_value_buffer_item(rt, args, i));
        }
        fputc('\n', out);
    }
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}

static RJS_NF(h_gc)
{
    rjs_gc_run(rt);
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}

static RJS_NF(h_mem)
{
    rjs_value_set_number(rt, rv, (double)rt->mem_size);
    return RJS_OK;
}

static RJS_NF(h_detach)
{
    RJS_Value *a = rjs_argument_get(rt, args, argc, 0);
    rjs_value_set_undefined(rt, rv);
    if (rjs_is_array_buffer(rt, a))
        return rjs_detach_array_buffer(rt, a);
    return rjs_throw_type_error(rt, "not an array buffer");
}

static RJS_NF(h_jobs)
{
    rjs_solve_jobs(rt);
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}

static RJS_NF(h_compile);
static RJS_NF(h_evalScript);
static RJS_NF(h_createRealm);
RJS_Result agent_hosts (RJS_Runtime *rt, RJS_Realm *realm, RJS_Value *o) __attribute__((weak));

static void
add_fn (RJS_Runtime *rt, RJS_Realm *realm, RJS_Value *o, const char *name, RJS_NativeFunc fn, int len)
{
    size_t top = rjs_value_stack_save(rt);
    RJS_Value *pk = rjs_value_stack_push(rt), *pv = rjs_value_stack_push(rt);
    RJS_PropertyName pn;
    rjs_string_from_chars(rt, pk, name, -1);
    rjs_create_builtin_function(rt, NULL, fn, len, pk, realm, NULL, NULL, pv);
    rjs_property_name_init(rt, &pn, pk);
    rjs_create_data_property_attrs(rt, o, &pn, pv, RJS_PROP_ATTR_WRITABLE|RJS_PROP_ATTR_CONFIGURABLE);
    rjs_property_name_deinit(rt, &pn);
    rjs_value_stack_restore(rt, top);
}

static void
load_hosts (RJS_Runtime *rt, RJS_Realm *realm)
{
    RJS_Value *g = rjs_global_object(realm);
    add_fn(rt, realm, g, "emit", h_emit, 1);
    add_fn(rt, realm, g, "$gc", h_gc, 0);
    add_fn(rt, realm, g, "$mem", h_mem, 0);
    add_fn(rt, realm, g, "$detach", h_detach, 1);
    add_fn(rt, realm, g, "$jobs", h_jobs, 0);
    add_fn(rt, realm, g, "$compile", h_compile, 1);
    add_fn(rt, realm, g, "$evalScript", h_evalScript, 1);
    add_fn(rt, realm, g, "$createRealm", h_createRealm, 0);
    if (agent_hosts) agent_hosts(rt, realm, g);
}

/* $compile(src[, "module"]): true if the source parses as a script */
static RJS_NF(h_compile)
{
    size_t top = rjs_value_stack_save(rt);
    RJS_Value *src = rjs_value_stack_push(rt), *s = rjs_value_stack_push(rt);
    RJS_Result r;
    if ((r = rjs_to_string(rt, rjs_argument_get(rt, args, argc, 0), src)) == RJS_OK) {
        r = rjs_script_from_string(rt, s, src, rjs_realm_current(rt), RJS_FALSE);
        rjs_catch(rt, NULL);
        rjs_value_set_boolean(rt, rv, r == RJS_OK);
        r = RJS_OK;
    }
    rjs_value_stack_restore(rt, top);
    return r;
}

static RJS_NF(h_evalScript)
{
    size_t top = rjs_value_stack_save(rt);
    RJS_Value *src = rjs_value_stack_push(rt), *s = rjs_value_stack_push(rt);
    RJS_Realm *realm = rjs_realm_current(rt);
    RJS_Result r;
    if ((r = rjs_to_string(rt, rjs_argument_get(rt, args, argc, 0), src)) == RJS_ERR) goto end;
    if ((r = rjs_script_from_string(rt, s, src, realm, RJS_FALSE)) == RJS_ERR) {
        rjs_catch(rt, NULL);
        r = rjs_throw_syntax_error(rt, "syntax error");
        goto end;
    }
    r = rjs_script_evaluation(rt, s, rv);
end:
    rjs_value_stack_restore(rt, top);
    return r;
}

static RJS_NF(h_createRealm)
{
    size_t top = rjs_value_stack_save(rt);
    RJS_Value *v = rjs_value_stack_push(rt);
    RJS_Realm *realm = rjs_realm_new(rt, v);
    load_hosts(rt, realm);
    rjs_value_copy(rt, rv, rjs_global_object(realm));
    rjs_value_stack_restore(rt, top);
    return RJS_OK;
}

static void
put_error (RJS_Runtime *rt, const char *tag)
{
    size_t top = rjs_value_stack_save(rt);
    RJS_Value *e = rjs_value_stack_push(rt), *c = rjs_value_stack_push(rt), *n = rjs_value_stack_push(rt);
    RJS_PropertyName pn;
    fprintf(out, "%s ", tag);
    if (!rjs_catch(rt, e)) {
        fputs("none\n", out);
    } else if (rjs_value_is_object(rt, e)) {
        rjs_string_from_chars(rt, n, "name", -1);
        rjs_property_name_init(rt, &pn, n);
        if (rjs_get(rt, e, &pn, c) == RJS_OK) put_value(rt, c);
        else { fputs("object", out); rjs_catch(rt, NULL); }
        rjs_property_name_deinit(rt, &pn);
        fputc('\n', out);
    } else {
        put_value(rt, e);
        fputc('\n', out);
    }
    rjs_value_stack_restore(rt, top);
}

static void
on_alarm (int sig)
{
    char b[300];
    int n; fflush_unlocked(stdout); n = snprintf(b, sizeof b, "\nX timeout %s\n", cur_id);
    (void)!write(1, b, n);
    _exit(97);
}

static void
arm (int s)
{
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = s;
    setitimer(ITIMER_VIRTUAL, &it, NULL);
}

static char *prelude;
static size_t prelude_len;

static int
run_src (RJS_Runtime *rt, const char *src, size_t len, int strict, const char *tag)
{
    size_t top = rjs_value_stack_save(rt);
    RJS_Value *s = rjs_value_stack_push(rt), *sc = rjs_value_stack_push(rt);
    int ok = 0;
    if (rjs_string_from_enc_chars(rt, s, src, len, "UTF-8") == RJS_ERR) {
        fprintf(out, "T enc\n");
        rjs_catch(rt, NULL);
    } else if (rjs_script_from_string(rt, sc, s, rjs_realm_current(rt), strict) == RJS_ERR) {
        rjs_catch(rt, NULL);
        fprintf(out, "%s SYNTAX\n", tag);
    } else if (rjs_script_evaluation(rt, sc, NULL) == RJS_ERR) {
        put_error(rt, tag);
    } else ok = 1;
    rjs_value_stack_restore(rt, top);
    return ok;
}

static int
run_case (const char *id, const char *mode, const char *src, size_t len)
{
    RJS_Runtime *rt;
    size_t mem;
    int raw = strstr(mode, "raw") != NULL;

    snprintf(cur_id, sizeof cur_id, "%s", id);
    cur_emits = 0;
    fprintf(out, "B %s\n", id);
    fflush(out);
    fprintf(stderr, "@@B %s\n", id);
    gc_tick = 0;
    gc_forced = 0;
    arm(opt_cpu);
    gc_on = 0;
    rt = rjs_runtime_new();
    gc_on = 1;
    if (opt_ext || strstr(mode, "ext")) rjs_realm_load_extension(rt, NULL);
    load_hosts(rt, rjs_realm_current(rt));
    if (prelude && !raw) run_src(rt, prelude, prelude_len, 0, "P");
    if (strstr(mode, "parse")) {
        size_t top = rjs_value_stack_save(rt);
        RJS_Value *s = rjs_value_stack_push(rt), *sc = rjs_value_stack_push(rt);
        RJS_Result r;
        rjs_string_from_enc_chars(rt, s, src, len, "UTF-8");
        if (strstr(mode, "module")) {
            RJS_Input in;
            rjs_string_input_init(rt, &in, s);
            r = rjs_load_module(rt, RJS_MODULE_TYPE_SCRIPT, &in, "m", rjs_realm_current(rt), sc);
            rjs_input_deinit(rt, &in);
        } else
            r = rjs_script_from_string(rt, sc, s, rjs_realm_current(rt), strstr(mode, "strict") != NULL);
        rjs_catch(rt, NULL);
        fprintf(out, "e %s\n", r == RJS_ERR ? "reject" : "accept");
        rjs_value_stack_restore(rt, top);
    } else {
        run_src(rt, src, len, strstr(mode, "strict") != NULL, "T");
    }
    rjs_solve_jobs(rt);
    mem = rt->mem_size;
    rjs_runtime_free(rt);
    arm(0);
    fprintf(out, "E %s gc=%lu mem=%zu emits=%ld\n", id, gc_forced, mem, cur_emits);
    fflush(out);
    return 0;
}

static char *
slurp (FILE *f, size_t n)
{
    char *b = malloc(n + 1);
    if (fread(b, 1, n, f) != n) { fprintf(stderr, "short read\n"); exit(98); }
    b[n] = 0;
    return b;
}

int
main (int argc, char **argv)
{
    int i;
    FILE *f = stdin;
    char line[1024], id[256], mode[128];
    size_t len;
    struct rlimit rl;
    if (!getrlimit(RLIMIT_STACK, &rl) && rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (256ul << 20)
            && (rl.rlim_max == RLIM_INFINITY || rl.rlim_max >= (256ul << 20)) && !getenv("RV_STK")) {
        rl.rlim_cur = 256ul << 20;
        setenv("RV_STK", "1", 1);
        if (!setrlimit(RLIMIT_STACK, &rl)) execv("/proc/self/exe", argv);
    }
    out = stdout;
    setvbuf(stdout, NULL, _IOFBF, 1 << 20);
    signal(SIGVTALRM, on_alarm);
    for (i = 1; i < argc; i ++) {
        if (!strcmp(argv[i], "--gc-every")) { gc_mode = 1; gc_every = atol(argv[++ i]); }
        else if (!strcmp(argv[i], "--gc-rand")) { gc_mode = 2; gc_every = atol(argv[++ i]); gc_rng = atol(argv[++ i]) * 2654435761ul + 88172645463325252ul; }
        else if (!strcmp(argv[i], "--gc-at")) { gc_mode = 3; gc_every = atol(argv[++ i]); }
        else if (!strcmp(argv[i], "--ext")) opt_ext = 1;
        else if (!strcmp(argv[i], "--cpu")) opt_cpu = atoi(argv[++ i]);
        else if (!strcmp(argv[i], "--prelude")) {
            FILE *p = fopen(argv[++ i], "rb");
            fseek(p, 0, SEEK_END); prelude_len = ftell(p); rewind(p);
            prelude = slurp(p, prelude_len); fclose(p);
        } else if (!strcmp(argv[i], "--log")) rjs_log_set_level(RJS_LOG_ERROR);
        else { f = fopen(argv[i], "rb"); if (!f) { perror(argv[i]); return 98; } }
    }
    rjs_log_set_level(RJS_LOG_ERROR);
    while (fgets(line, sizeof line, f)) {
        char *src;
        if (sscanf(line, "#CASE %255s %127s %zu", id, mode, &len) != 3) { fprintf(stderr, "bad header: %s", line); return 98; }
        src = slurp(f, len);
        fgetc(f);
        run_case(id, mode, src, len);
        free(src);
    }
    return 0;
}
