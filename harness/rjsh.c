/* Verification host for ratjs.  Usage: rjsh [opts] script.js [args...]
 *   Links against the static library built from /repo's working tree and adds
 *   a few host functions to the global object (prefixed H_).
 *   With RJS_VERIF defined (hooks on) it can force a collection at every N-th
 *   allocation of a collectable thing. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
#include <time.h>
#include <libgen.h>
#include <limits.h>
#include <ratjs.h>

static RJS_Runtime *main_rt;
static __thread long gc_period;   /* 0 = off */
static __thread long gc_count;
static __thread unsigned long gc_lcg = 1;
static __thread int  gc_random;

#ifdef RJS_VERIF
extern RJS_Bool (*rjs_verif_gc_hook) (RJS_Runtime *rt);
static RJS_Bool
gc_hook (RJS_Runtime *rt)
{
    (void)rt;
    if (!gc_period) return RJS_FALSE;
    if (gc_random) {
        gc_lcg = gc_lcg * 6364136223846793005UL + 1442695040888963407UL;
        return ((gc_lcg >> 33) % (unsigned long)gc_period) == 0;
    }
    return (++ gc_count % gc_period) == 0;
}
#endif

static void install (RJS_Runtime *rt, RJS_Realm *realm);

/* out(str): one line to stdout. */
static RJS_NF(h_out)
{
    RJS_Value  *v   = rjs_argument_get(rt, args, argc, 0);
    size_t      top = rjs_value_stack_save(rt);
    RJS_Value  *str = rjs_value_stack_push(rt);
    RJS_Result  r;

    if ((r = rjs_to_string(rt, v, str)) == RJS_OK) {
        fputs(rjs_string_to_enc_chars(rt, str, NULL, NULL), stdout);
        fputc('\n', stdout);
    }
    rjs_value_set_undefined(rt, rv);
    rjs_value_stack_restore(rt, top);
    return r;
}

static RJS_NF(h_flush)
{
    fflush(stdout);
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}

static RJS_NF(h_gc)
{
    rjs_gc_run(rt);
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}

/* gcStress(period[, seed]) */
static RJS_NF(h_gcstress)
{
    RJS_Number n = 0, s = 0;
    if (rjs_to_number(rt, rjs_argument_get(rt, args, argc, 0), &n) == RJS_ERR) return RJS_ERR;
    if (argc > 1) { 
        if (rjs_to_number(rt, rjs_argument_get(rt, args, argc, 1), &s) == RJS_ERR) return RJS_ERR;
        gc_random = 1; gc_lcg = (unsigned long)s * 2 + 1;
    } else gc_random = 0;
    gc_period = (long)n; gc_count = 0;
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}

static RJS_NF(h_depth)
{
    rjs_value_set_number(rt, rv, (double)rjs_value_stack_save(rt));
    return RJS_OK;
}

static RJS_NF(h_solvejobs)
{
    rjs_solve_jobs(rt);
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}

#if ENABLE_ARRAY_BUFFER
static RJS_NF(h_detach)
{
    RJS_Value *abv = rjs_argument_get(rt, args, argc, 0);
    if (rjs_is_array_buffer(rt, abv)) rjs_detach_array_buffer(rt, abv);
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}
#endif

static RJS_NF(h_createrealm)
{
    size_t     top    = rjs_value_stack_save(rt);
    RJS_Value *realmv = rjs_value_stack_push(rt);
    RJS_Realm *realm  = rjs_realm_new(rt, realmv);
    rjs_realm_load_extension(rt, realm);
    install(rt, realm);
    rjs_value_copy(rt, rv, rjs_global_object(realm));
    rjs_value_stack_restore(rt, top);
    return RJS_OK;
}

/* evalScript(src): run as a global Script in the realm of this function. */
static RJS_NF(h_evalscript)
{
    RJS_Value  *v      = rjs_argument_get(rt, args, argc, 0);
    size_t      top    = rjs_value_stack_save(rt);
    RJS_Value  *src    = rjs_value_stack_push(rt);
    RJS_Value  *script = rjs_value_stack_push(rt);
    RJS_Realm  *realm  = rjs_realm_current(rt);
    RJS_Result  r;

    if ((r = rjs_to_string(rt, v, src)) == RJS_ERR) goto end;
    if ((r = rjs_script_from_string(rt, script, src, realm, RJS_FALSE)) == RJS_ERR) {
        r = rjs_throw_syntax_error(rt, "syntax error");
        goto end;
    }
    r = rjs_script_evaluation(rt, script, rv);
end:
    rjs_value_stack_restore(rt, top);
    return r;
}

/* ---- agents ---- */
typedef struct Agent_s {
    pthread_t       th;
    char           *src;
    RJS_DataBlock  *db;
    int             id;
    struct Agent_s *next;
} Agent;
static Agent          *agents;
static int             agent_num;
static pthread_mutex_t log_lock = PTHREAD_MUTEX_INITIALIZER;
static __thread Agent *self;
static long            log_seq;

static void*
agent_entry (void *arg)
{
    Agent       *a  = arg;
    RJS_Runtime *rt = rjs_runtime_new();
    RJS_Realm   *realm = rjs_realm_current(rt);
    RJS_Value   *str = rjs_value_stack_push(rt);
    RJS_Value   *script = rjs_value_stack_push(rt);

    self = a;
    install(rt, realm);
    rjs_string_from_enc_chars(rt, str, a->src, -1, NULL);
    if (rjs_script_from_string(rt, script, str, realm, RJS_FALSE) == RJS_ERR)
        fprintf(stderr, "agent: parse error\n");
    else if (rjs_script_evaluation(rt, script, NULL) == RJS_ERR) {
        RJS_Value *err = rjs_value_stack_push(rt);
        rjs_catch(rt, err);
        rjs_to_string(rt, err, str);
        fprintf(stderr, "agent: throw %s\n", rjs_string_to_enc_chars(rt, str, NULL, NULL));
    }
    rjs_solve_jobs(rt);
    rjs_runtime_free(rt);
    if (a->db) rjs_data_block_unref(a->db);
    return NULL;
}

/* agentStart(src, sab) -> id */
static RJS_NF(h_agentstart)
{
    size_t     top = rjs_value_stack_save(rt);
    RJS_Value *str = rjs_value_stack_push(rt);
    RJS_Value *sab = rjs_argument_get(rt, args, argc, 1);
    Agent     *a   = calloc(1, sizeof(Agent));
    RJS_Result r;

    if ((r = rjs_to_string(rt, rjs_argument_get(rt, args, argc, 0), str)) == RJS_ERR) goto end;
    a->src = strdup(rjs_string_to_enc_chars(rt, str, NULL, NULL));
    a->id  = ++ agent_num;
    if (rjs_is_shared_array_buffer(rt, sab))
        a->db = rjs_data_block_ref(rjs_array_buffer_get_data_block(rt, sab));
    a->next = agents; agents = a;
    rjs_value_set_number(rt, rv, a->id);
    pthread_create(&a->th, NULL, agent_entry, a);
end:
    rjs_value_stack_restore(rt, top);
    return r;
}

/* agentJoin(): wait for every agent. */
static RJS_NF(h_agentjoin)
{
    while (agents) {
        Agent *a = agents;
        agents = a->next;
        pthread_join(a->th, NULL);
        free(a->src);
        free(a);
    }
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}

/* agentBuffer(): the shared buffer handed to this agent. */
static RJS_NF(h_agentbuffer)
{
    if (!self || !self->db) { rjs_value_set_undefined(rt, rv); return RJS_OK; }
    return rjs_allocate_shared_array_buffer(rt, NULL, rjs_data_block_get_size(self->db),
            self->db, rv);
}

/* log(str): atomic, totally ordered line "seq<TAB>str". */
static RJS_NF(h_log)
{
    size_t     top = rjs_value_stack_save(rt);
    RJS_Value *str = rjs_value_stack_push(rt);
    RJS_Result r;

    if ((r = rjs_to_string(rt, rjs_argument_get(rt, args, argc, 0), str)) == RJS_OK) {
        const char *s = rjs_string_to_enc_chars(rt, str, NULL, NULL);
        pthread_mutex_lock(&log_lock);
        printf("%ld\t%s\n", log_seq ++, s);
        pthread_mutex_unlock(&log_lock);
    }
    rjs_value_set_undefined(rt, rv);
    rjs_value_stack_restore(rt, top);
    return r;
}

static RJS_NF(h_sleep)
{
    RJS_Number n;
    if (rjs_to_number(rt, rjs_argument_get(rt, args, argc, 0), &n) == RJS_ERR) return RJS_ERR;
    if (n > 0) usleep((useconds_t)(n * 1000));
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}

static RJS_NF(h_now)
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    rjs_value_set_number(rt, rv, ts.tv_sec * 1000.0 + ts.tv_nsec / 1000000.0);
    return RJS_OK;
}

static RJS_NF(h_canblock)
{
    RJS_Bool b = rjs_to_boolean(rt, rjs_argument_get(rt, args, argc, 0));
    rjs_set_agent_can_block(rt, b);
    rjs_value_set_undefined(rt, rv);
    return RJS_OK;
}

static struct { const char *name; int len; RJS_NativeFunc fn; } funcs[] = {
    {"H_out", 1, h_out}, {"H_flush", 0, h_flush}, {"H_gc", 0, h_gc},
    {"H_gcStress", 1, h_gcstress}, {"H_depth", 0, h_depth}, {"H_solveJobs", 0, h_solvejobs},
#if ENABLE_ARRAY_BUFFER
    {"H_detach", 1, h_detach},
#endif
    {"H_createRealm", 0, h_createrealm}, {"H_evalScript", 1, h_evalscript},
    {"H_agentStart", 2, h_agentstart}, {"H_agentJoin", 0, h_agentjoin},
    {"H_agentBuffer", 0, h_agentbuffer}, {"H_log", 1, h_log}, {"H_sleep", 1, h_sleep},
    {"H_now", 0, h_now}, {"H_canBlock", 1, h_canblock},
    {NULL}
};

static void
install (RJS_Runtime *rt, RJS_Realm *realm)
{
    size_t     top  = rjs_value_stack_save(rt);
    RJS_Value *name = rjs_value_stack_push(rt);
    RJS_Value *fn   = rjs_value_stack_push(rt);
    int        i;

    for (i = 0; funcs[i].name; i ++) {
        RJS_PropertyName pn;
        rjs_string_from_chars(rt, name, funcs[i].name, -1);
        rjs_create_builtin_function(rt, NULL, funcs[i].fn, funcs[i].len, name, realm, NULL, NULL, fn);
        rjs_property_name_init(rt, &pn, name);
        rjs_create_data_property(rt, rjs_global_object(realm), &pn, fn);
        rjs_property_name_deinit(rt, &pn);
    }
    rjs_value_stack_restore(rt, top);
}

/* ---- module loading (files, absolute or relative to the importer) ---- */
static RJS_Result
mod_lookup (RJS_Runtime *rt, const char *base, const char *name, char *path)
{
    char b[PATH_MAX], p[PATH_MAX * 2];

    (void)rt;
    if (base && name[0] == '.') {
        snprintf(b, sizeof(b), "%s", base);
        snprintf(p, sizeof(p), "%s/%s", dirname(b), name);
    } else
        snprintf(p, sizeof(p), "%s", name);
    if (realpath(p, path)) return RJS_OK;
    strncat(p, ".js", sizeof(p) - strlen(p) - 1);
    return realpath(p, path) ? RJS_OK : RJS_ERR;
}

static RJS_Result
mod_load (RJS_Runtime *rt, const char *id, RJS_PromiseCapability *pc)
{
    size_t         top = rjs_value_stack_save(rt);
    RJS_Value     *mod = rjs_value_stack_push(rt);
    RJS_Value     *err = rjs_value_stack_push(rt);
    const char    *sup = strrchr(id, '.');
    RJS_ModuleType ty  = RJS_MODULE_TYPE_SCRIPT;
    RJS_Input      in;
    RJS_Result     r;

    if (sup && !strcmp(sup, ".json")) ty = RJS_MODULE_TYPE_JSON;
    if (sup && !strcmp(sup, ".njs"))  ty = RJS_MODULE_TYPE_NATIVE;
    if (ty == RJS_MODULE_TYPE_NATIVE)
        r = rjs_load_module(rt, ty, NULL, id, NULL, mod);
    else if ((r = rjs_file_input_init(rt, &in, id, NULL)) == RJS_OK) {
        r = rjs_load_module(rt, ty, &in, id, NULL, mod);
        rjs_input_deinit(rt, &in);
    }
    if (r == RJS_ERR) {
        rjs_catch(rt, err);
        r = rjs_call(rt, pc->reject, rjs_v_undefined(rt), err, 1, NULL);
    } else
        r = rjs_call(rt, pc->resolve, rjs_v_undefined(rt), mod, 1, NULL);
    rjs_value_stack_restore(rt, top);
    return r;
}

int
main (int argc, char **argv)
{
    RJS_Runtime *rt;
    RJS_Value   *v, *a, *s, *err;
    RJS_Realm   *realm;
    RJS_PropertyName pn;
    int          i, ec = 0, ai = 1;
    long         stress = 0, seed = -1, big = 0;
    RJS_Result   r;

    while (ai < argc && argv[ai][0] == '-') {
        if (!strcmp(argv[ai], "-g") && ai + 1 < argc) stress = atol(argv[++ ai]);
        else if (!strcmp(argv[ai], "-s") && ai + 1 < argc) seed = atol(argv[++ ai]);
        else if (!strcmp(argv[ai], "-u")) big = 1;
        ai ++;
    }
    if (ai >= argc) return 2;
    if (!big) setvbuf(stdout, NULL, _IOFBF, 1 << 16);

    rt = main_rt = rjs_runtime_new();
#ifdef RJS_VERIF
    rjs_verif_gc_hook = gc_hook;
#endif
    rjs_realm_load_extension(rt, NULL);
    realm = rjs_realm_current(rt);
    install(rt, realm);
    rjs_set_module_lookup_func(rt, mod_lookup);
    rjs_set_module_load_func(rt, mod_load);

    v = rjs_value_stack_push(rt);
    a = rjs_value_stack_push(rt);
    s = rjs_value_stack_push(rt);
    err = rjs_value_stack_push(rt);

    rjs_array_new(rt, a, 0, NULL);
    for (i = ai + 1; i < argc; i ++) {
        rjs_string_from_enc_chars(rt, s, argv[i], -1, NULL);
        rjs_create_data_property_or_throw_index(rt, a, i - ai - 1, s);
    }
    rjs_string_from_chars(rt, s, "H_args", -1);
    rjs_property_name_init(rt, &pn, s);
    rjs_create_data_property(rt, rjs_global_object(realm), &pn, a);
    rjs_property_name_deinit(rt, &pn);
    rjs_string_from_enc_chars(rt, a, argv[ai], -1, NULL);
    rjs_string_from_chars(rt, s, "H_self", -1);
    rjs_property_name_init(rt, &pn, s);
    rjs_create_data_property(rt, rjs_global_object(realm), &pn, a);
    rjs_property_name_deinit(rt, &pn);

    if (stress) {
        gc_period = stress;
        if (seed >= 0) { gc_random = 1; gc_lcg = (unsigned long)seed * 2 + 1; }
    }

    if (rjs_script_from_file(rt, v, argv[ai], realm, RJS_FALSE) == RJS_ERR) {
        printf("@@SYNTAXERROR\n");
        ec = 3;
    } else {
        r = rjs_script_evaluation(rt, v, NULL);
        if (r == RJS_ERR) {
            rjs_catch(rt, err);
            if (rjs_to_string(rt, err, s) == RJS_OK)
                printf("@@THROW %s\n", rjs_string_to_enc_chars(rt, s, NULL, NULL));
            else
                printf("@@THROW ?\n");
            ec = 4;
        }
        rjs_solve_jobs(rt);
    }
    printf("@@END\n");
    fflush(stdout);
    gc_period = 0;
    rjs_runtime_free(rt);
    return ec;
}
