/*
 * What the general-purpose macros of /repo's headers mean.  References use
 * these definitions, so that a mistake in a macro shows.
 */
#undef HOWMANY
#define HOWMANY(a, b) (((a) + ((b)-1)) / (b))
#undef ARRAYCOUNT
#define ARRAYCOUNT(a) (sizeof(a) / sizeof((a)[0]))
#undef ARRAY_FOREACH
#define ARRAY_FOREACH(p, a, sz) for (p = (a); p < (a) + (sz); p++)
#undef ADD_U32_OVERFLOW
#define ADD_U32_OVERFLOW(a, b, c) __builtin_add_overflow(a, b, c)
#undef MUL_U32_OVERFLOW
#define MUL_U32_OVERFLOW(a, b, c) __builtin_mul_overflow(a, b, c)
#undef MUL_SIZE_OVERFLOW
#define MUL_SIZE_OVERFLOW(a, b, c) __builtin_mul_overflow(a, b, c)

#undef VEC_INIT
#define VEC_INIT(v) memset(&v, 0, sizeof(v))
#undef VEC_RESIZE
#define VEC_RESIZE(ctx, v, sz) _vec_resize(ctx, &v, sizeof(*v.p), sz);
#undef VEC_PREALLOC
#define VEC_PREALLOC(ctx, v, needed)                                          \
        _vec_prealloc(ctx, &v, sizeof(*v.p), needed);
#undef VEC_FREE
#define VEC_FREE(ctx, v) _vec_free(ctx, &v, sizeof(*v.p))
#undef VEC_FOREACH
#define VEC_FOREACH(it, v) for (it = v.p; it < v.p + v.lsize; it++)
#undef VEC_FOREACH_IDX
#define VEC_FOREACH_IDX(i, it, v) for (i = 0, it = v.p; i < v.lsize; i++, it++)
#undef VEC_ELEM
#define VEC_ELEM(v, idx) (v.p[idx])
#undef VEC_LASTELEM
#define VEC_LASTELEM(v) (v.p[v.lsize - 1])
#undef VEC_NEXTELEM
#define VEC_NEXTELEM(v) (v.p[v.lsize])
#undef VEC_PUSH
#define VEC_PUSH(v) (&v.p[v.lsize++])
#undef VEC_POP
#define VEC_POP(v) (&v.p[--v.lsize])
#undef VEC_POP_DROP
#define VEC_POP_DROP(v) v.lsize--

#undef LIST_FIRST
#define LIST_FIRST(HEAD) ((HEAD)->first)
#undef LIST_EMPTY
#define LIST_EMPTY(HEAD) ((HEAD)->first == NULL)
#undef LIST_NEXT
#define LIST_NEXT(VAR, NAME) ((VAR)->NAME.next)
#undef LIST_FOREACH
#define LIST_FOREACH(VAR, HEAD, NAME)                                         \
        for (VAR = (HEAD)->first; VAR != NULL; VAR = (VAR)->NAME.next)
#undef LIST_REMOVE
#define LIST_REMOVE(HEAD, ELEM, NAME)                                         \
        list_remove((struct list_head *)(HEAD), (ELEM),                       \
                    (struct list_entry *)&(ELEM)->NAME)
#undef LIST_INSERT_TAIL
#define LIST_INSERT_TAIL(HEAD, ELEM, NAME)                                    \
        list_insert_tail((struct list_head *)(HEAD), (ELEM),                  \
                         (struct list_entry *)&(ELEM)->NAME)
#undef LIST_INSERT_HEAD
#define LIST_INSERT_HEAD(HEAD, ELEM, NAME)                                    \
        list_insert_head((struct list_head *)(HEAD), (ELEM),                  \
                         (struct list_entry *)&(ELEM)->NAME)
#undef LIST_HEAD_INIT
#define LIST_HEAD_INIT(HEAD) list_head_init((struct list_head *)(HEAD))

#undef SLIST_FIRST
#define SLIST_FIRST(HEAD) ((HEAD)->sh_first)
#undef SLIST_EMPTY
#define SLIST_EMPTY(HEAD) ((HEAD)->sh_first == NULL)
#undef SLIST_NEXT
#define SLIST_NEXT(VAR, NAME) ((VAR)->NAME.se_next)
#undef SLIST_FOREACH
#define SLIST_FOREACH(VAR, HEAD, NAME)                                        \
        for (VAR = (HEAD)->sh_first; VAR != NULL; VAR = (VAR)->NAME.se_next)
#undef SLIST_REMOVE
#define SLIST_REMOVE(HEAD, PREV, ELEM, NAME)                                  \
        slist_remove((struct slist_head *)(HEAD),                             \
                     (struct slist_entry *)((PREV == NULL) ? NULL             \
                                                           : &(PREV)->NAME),  \
                     (struct slist_entry *)&(ELEM)->NAME)
#undef SLIST_REMOVE_HEAD
#define SLIST_REMOVE_HEAD(HEAD, ELEM, NAME)                                   \
        slist_remove_head((struct slist_head *)(HEAD),                        \
                          (struct slist_entry *)&(ELEM)->NAME)
#undef SLIST_INSERT_TAIL
#define SLIST_INSERT_TAIL(HEAD, ELEM, NAME)                                   \
        slist_insert_tail((struct slist_head *)(HEAD), (ELEM),                \
                          (struct slist_entry *)&(ELEM)->NAME)
#undef SLIST_INSERT_HEAD
#define SLIST_INSERT_HEAD(HEAD, ELEM, NAME)                                   \
        slist_insert_head((struct slist_head *)(HEAD), (ELEM),                \
                          (struct slist_entry *)&(ELEM)->NAME)
#undef SLIST_HEAD_INIT
#define SLIST_HEAD_INIT(HEAD) slist_head_init((struct slist_head *)(HEAD))

#undef NAME_FROM_CSTR_LITERAL
#define NAME_FROM_CSTR_LITERAL(C) {.nbytes = sizeof(C) - 1, .data = C}
#undef NAME_FROM_CSTR
#define NAME_FROM_CSTR(C) {.nbytes = (uint32_t)strlen(C), .data = C}
#undef DEFINE_TYPES
#define DEFINE_TYPES(QUAL, NAME, ...) QUAL enum valtype NAME[] = {__VA_ARGS__}
#undef DEFINE_RESULTTYPE
#define DEFINE_RESULTTYPE(QUAL, NAME, TYPES, NTYPES)                          \
        QUAL struct resulttype NAME = {.types = (void *)TYPES,                \
                                       .ntypes = NTYPES,                      \
                                       .is_static = true}
#undef exception_tag_ptr
#define exception_tag_ptr(exc)                                                \
        ((uint8_t *)(exc) + __builtin_offsetof(struct wasm_exception, tag))
#undef EXNREF_NCELLS
#define EXNREF_NCELLS                                                         \
        ((sizeof(struct wasm_exception) + sizeof(struct cell) - 1) /          \
         sizeof(struct cell))
#undef EXTERNREF_NCELLS
#define EXTERNREF_NCELLS                                                      \
        ((sizeof(void *) + sizeof(struct cell) - 1) / sizeof(struct cell))
