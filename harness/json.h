/* Canonical JSON of an object, as the specification sees it. */
#ifndef RH_JSON_H
#define RH_JSON_H
#define SPEC_NULL (-2147483647 - 1)

static const char *js_types[] = {"LIST", "B8", "U8", "I16", "I32", "I64", "SYM", "DATE", "TIME", "TS", "F64", "GUID", "C8"};
static const char *js_atypes[] = {"", "b8", "u8", "i16", "i32", "i64", "sym", "date", "time", "ts", "f64", "guid", "c8"};

static void js_str(FILE *o, const char *s, long n) {
    long i;
    fputc('"', o);
    for (i = 0; i < n; i++) {
        unsigned char c = (unsigned char)s[i];
        if (c == '"' || c == '\\')
            fprintf(o, "\\%c", c);
        else if (c < 32 || c > 126)
            fprintf(o, "\\u%04x", c);
        else
            fputc(c, o);
    }
    fputc('"', o);
}

static void js_sym(FILE *o, i64_t id) {
    str_p s;
    if (id == NULL_I64) {
        fprintf(o, "\"0Ns\"");
        return;
    }
    s = str_from_symbol(id);
    if (s == NULL)
        fprintf(o, "\"?badsym\"");
    else
        js_str(o, s, strlen(s));
}

static int js_narrow(i64_t v) { return v == NULL_I64 || (v > -2147483647LL && v < 2147483647LL); }

static void js_int(FILE *o, i64_t v) { fprintf(o, "%lld", v == NULL_I64 ? (i64_t)SPEC_NULL : v); }

/* three 24-bit limbs, order-preserving: hi signed */
static void js_wide(FILE *o, i64_t v) {
    fprintf(o, "[%lld,%lld,%lld]", v >> 48, (v >> 24) & 0xffffff, v & 0xffffff);
}

static void js_f64(FILE *o, double d) {
    if (isnan(d))
        fprintf(o, "%d", SPEC_NULL);
    else {
        double s = d * 1024.0;
        if (s >= 2147483640.0)
            fprintf(o, "2147483646");
        else if (s <= -2147483640.0)
            fprintf(o, "-2147483646");
        else
            fprintf(o, "%lld", (i64_t)llround(s));
    }
}

static void js_guid(FILE *o, const u8_t *g) {
    int i;
    fputc('"', o);
    for (i = 0; i < 16; i++) fprintf(o, "%02x", g[i]);
    fputc('"', o);
}

static int js_isnan(double d) {
    u64_t u;
    memcpy(&u, &d, 8);
    return (u & 0x7FF0000000000000ULL) == 0x7FF0000000000000ULL && (u & 0x000FFFFFFFFFFFFFULL) != 0;
}

static void js_obj(FILE *o, obj_p x);

static int js_held(i8_t t) { return t == TYPE_ENUM || t == TYPE_MAPLIST || t == TYPE_MAPCOMMON || (t >= TYPE_PARTEDLIST && t <= TYPE_PARTEDENUM); }
/* element by element, into a plain vector or list */
static obj_p js_unheld(obj_p x) {
    i64_t i, j;
    obj_p l, r, v = NULL_OBJ;
    if (x->type == TYPE_ENUM) {
        v = ray_value(x);
        if (v->type == TYPE_SYMBOL) return v;
        drop_obj(v);
        return symbol("?badenum", 8);
    }
    l = LIST(0);
    if (x->type == TYPE_MAPLIST) {
        for (i = 0; i < x->len; i++) push_obj(&l, at_idx(x, i));
        return l;
    }
    if (x->type == TYPE_MAPCOMMON) {
        for (i = 0; i < AS_LIST(x)[0]->len; i++)
            for (j = 0; j < AS_I64(AS_LIST(x)[1])[i]; j++) push_obj(&l, at_idx(AS_LIST(x)[0], i));
        r = vector(AS_LIST(x)[0]->type, l->len);
    } else {
        for (i = 0; i < x->len; i++) {
            v = AS_LIST(x)[i];
            v = js_held(v->type) ? js_unheld(v) : clone_obj(v);
            for (j = 0; j < v->len; j++) push_obj(&l, at_idx(v, j));
            drop_obj(v);
        }
        if (x->type == TYPE_PARTEDLIST) return l;
        r = vector(x->type == TYPE_PARTEDENUM ? TYPE_SYMBOL : x->type - TYPE_PARTEDLIST, l->len);
    }
    for (i = 0; i < l->len; i++) ins_obj(&r, i, clone_obj(AS_LIST(l)[i]));
    drop_obj(l);
    return r;
}

/* a value nested deeper or wider than any program here builds is a damaged one (perhaps a cycle) */
static int js_depth;
static long js_count;
static void js_seq(FILE *o, obj_p *v, i64_t n) {
    i64_t i;
    if (js_depth == 0) js_count = 0;
    if (js_depth > 100 || js_count > 4000000) {
        fprintf(o, "\"TOO DEEP\"");
        return;
    }
    js_depth++;
    fputc('[', o);
    for (i = 0; i < n; i++) {
        if (i) fputc(',', o);
        js_count++;
        js_obj(o, v[i]);
    }
    fputc(']', o);
    js_depth--;
}

#define JS_LOOP(stmt)                    \
    for (i = 0; i < n; i++) {            \
        if (i) fputc(',', o);            \
        stmt;                            \
    }

/* plain: a value as what it stands for, not as it is held (enumerations, values held in files) */
static int js_plain;
static void js_obj(FILE *o, obj_p x) {
    i64_t i, n;
    if (x != NULL && js_plain && js_held(x->type)) {
        obj_p p = js_unheld(x);
        js_obj(o, p);
        drop_obj(p);
        return;
    }
    if (x == NULL) {
        fprintf(o, "{\"t\":\"NULLPTR\"}");
        return;
    }
    switch (x->type) {
        case -TYPE_B8: fprintf(o, "{\"t\":\"b8\",\"v\":%s}", x->b8 ? "true" : "false"); return;
        case -TYPE_U8: fprintf(o, "{\"t\":\"u8\",\"v\":%d}", (int)x->u8); return;
        case -TYPE_C8: fprintf(o, "{\"t\":\"c8\",\"v\":%d}", (int)(u8_t)x->c8); return;
        case -TYPE_I16: fprintf(o, "{\"t\":\"i16\",\"v\":%d}", x->i16 == NULL_I16 ? SPEC_NULL : x->i16); return;
        case -TYPE_I32:
        case -TYPE_DATE:
        case -TYPE_TIME: fprintf(o, "{\"t\":\"%s\",\"v\":%d}", js_atypes[-x->type], x->i32); return;
        case -TYPE_I64:
        case -TYPE_TIMESTAMP:
            fprintf(o, "{\"t\":\"%s%s\",\"v\":", js_atypes[-x->type], js_narrow(x->i64) ? "" : "w");
            if (js_narrow(x->i64)) js_int(o, x->i64); else js_wide(o, x->i64);
            fprintf(o, "}");
            return;
        case -TYPE_SYMBOL:
            fprintf(o, "{\"t\":\"sym\",\"v\":");
            js_sym(o, x->i64);
            fprintf(o, "}");
            return;
        case -TYPE_F64:
            fprintf(o, "{\"t\":\"f64\",\"v\":");
            if (js_isnan(x->f64)) fprintf(o, "%d", SPEC_NULL);
            else js_f64(o, x->f64);
            fprintf(o, "}");
            return;
        case -TYPE_GUID:
            fprintf(o, "{\"t\":\"guid\",\"v\":");
            js_guid(o, (u8_t *)AS_GUID(x)[0]);
            fprintf(o, "}");
            return;
        case TYPE_LIST:
            n = x->len;
            fprintf(o, "{\"t\":\"LIST\",\"v\":");
            js_seq(o, AS_LIST(x), n);
            fprintf(o, "}");
            return;
        case TYPE_B8:
            n = x->len;
            fprintf(o, "{\"t\":\"B8\",\"v\":[");
            JS_LOOP(fputs(AS_B8(x)[i] ? "true" : "false", o));
            fprintf(o, "]}");
            return;
        case TYPE_U8:
        case TYPE_C8:
            n = x->len;
            fprintf(o, "{\"t\":\"%s\",\"v\":[", js_types[(int)x->type]);
            JS_LOOP(fprintf(o, "%d", (int)AS_U8(x)[i]));
            fprintf(o, "]}");
            return;
        case TYPE_I16:
            n = x->len;
            fprintf(o, "{\"t\":\"I16\",\"v\":[");
            JS_LOOP(fprintf(o, "%d", AS_I16(x)[i] == NULL_I16 ? SPEC_NULL : AS_I16(x)[i]));
            fprintf(o, "]}");
            return;
        case TYPE_I32:
        case TYPE_DATE:
        case TYPE_TIME:
            n = x->len;
            fprintf(o, "{\"t\":\"%s\",\"v\":[", js_types[(int)x->type]);
            JS_LOOP(fprintf(o, "%d", AS_I32(x)[i]));
            fprintf(o, "]}");
            return;
        case TYPE_I64:
        case TYPE_TIMESTAMP: {
            int wide = 0;
            n = x->len;
            for (i = 0; i < n; i++)
                if (!js_narrow(AS_I64(x)[i])) wide = 1;
            fprintf(o, "{\"t\":\"%s%s\",\"v\":[", js_types[(int)x->type], wide ? "w" : "");
            JS_LOOP(if (wide) js_wide(o, AS_I64(x)[i]); else js_int(o, AS_I64(x)[i]));
            fprintf(o, "]}");
            return;
        }
        case TYPE_SYMBOL:
            n = x->len;
            fprintf(o, "{\"t\":\"SYM\",\"v\":[");
            JS_LOOP(js_sym(o, AS_SYMBOL(x)[i]));
            fprintf(o, "]}");
            return;
        case TYPE_F64:
            n = x->len;
            fprintf(o, "{\"t\":\"F64\",\"v\":[");
            JS_LOOP(if (js_isnan(AS_F64(x)[i])) fprintf(o, "%d", SPEC_NULL); else js_f64(o, AS_F64(x)[i]));
            fprintf(o, "]}");
            return;
        case TYPE_GUID:
            n = x->len;
            fprintf(o, "{\"t\":\"GUID\",\"v\":[");
            JS_LOOP(js_guid(o, (u8_t *)AS_GUID(x)[i]));
            fprintf(o, "]}");
            return;
        case TYPE_ENUM: {
            obj_p v;
            obj_p k = ray_key(x);
            v = ray_value(x);
            if (v->type == TYPE_SYMBOL) {
                n = v->len;
                fprintf(o, "{\"t\":\"ENUM\",\"k\":");
                js_sym(o, k->i64);
                fprintf(o, ",\"v\":[");
                JS_LOOP(js_sym(o, AS_SYMBOL(v)[i]));
                fprintf(o, "]}");
            } else
                fprintf(o, "{\"t\":\"BADENUM\"}");
            drop_obj(k);
            drop_obj(v);
            return;
        }
        case TYPE_TABLE:
            fprintf(o, "{\"t\":\"TABLE\",\"c\":[");
            n = AS_LIST(x)[0]->len;
            JS_LOOP(js_sym(o, AS_SYMBOL(AS_LIST(x)[0])[i]));
            fprintf(o, "],\"v\":");
            js_seq(o, AS_LIST(AS_LIST(x)[1]), AS_LIST(x)[1]->len);
            fprintf(o, "}");
            return;
        case TYPE_DICT:
            fprintf(o, "{\"t\":\"DICT\",\"k\":");
            js_obj(o, AS_LIST(x)[0]);
            fprintf(o, ",\"v\":");
            js_obj(o, AS_LIST(x)[1]);
            fprintf(o, "}");
            return;
        case TYPE_LAMBDA: fprintf(o, "{\"t\":\"LAMBDA\"}"); return;
        case TYPE_UNARY:
        case TYPE_BINARY:
        case TYPE_VARY:
            fprintf(o, "{\"t\":\"FN\",\"n\":");
            {
                str_p nm = env_get_internal_name(x);
                js_str(o, nm, strlen(nm));
            }
            fprintf(o, "}");
            return;
        case TYPE_NULL: fprintf(o, "{\"t\":\"NULL\"}"); return;
        case TYPE_ERR:
            fprintf(o, "{\"t\":\"ERR\",\"c\":");
            {
                lit_p nm = err_name(err_code(x));
                js_str(o, nm, strlen(nm));
            }
            fprintf(o, "}");
            return;
        default:
            if (x->type >= TYPE_PARTEDLIST && x->type <= TYPE_PARTEDENUM) {
                fprintf(o, "{\"t\":\"PARTED\",\"v\":");
                js_seq(o, AS_LIST(x), x->len);
                fprintf(o, "}");
                return;
            }
            if (x->type == TYPE_MAPCOMMON) {
                fprintf(o, "{\"t\":\"MAPC\",\"v\":");
                js_seq(o, AS_LIST(x), 2);
                fprintf(o, "}");
                return;
            }
            fprintf(o, "{\"t\":\"OTHER\",\"n\":%d}", (int)x->type);
            return;
    }
}
#endif
