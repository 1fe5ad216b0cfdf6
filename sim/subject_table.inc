/* fills the table; the including file defines adaptors a_<Name> */
extern ZApi SUBJ_SYM;
ZApi SUBJ_SYM = {
    SUBJ_FLAVOUR "-" SUBJ_KNOB, SUBJ_FLAVOUR, SUBJ_KNOB, sizeof(ZSIZE), zj_DELTA, zj_ALLOCATOR_INIT_MEMSIZE,
    zj_STRING_INIT_MEMSIZE, a_NewAllocator, a_ReleaseAllocator, a_NewValue,
#define X(n) a_##n,
    API_S(X) API_SL(X) API_H(X) API_V(X) API_B(X) API_BS(X) API_BSL(X) API_BV(X)
#undef X
    a_GetNum, a_GetDouble, a_GetInt, a_GetLong, a_GetLongLong, a_GetBool, a_Type, a_TypePtr, a_SizeOf, a_ObjGet, a_ObjGetLen,
    a_ArrayGet, a_SetBool, a_SetNum, a_SetDouble, a_SetInt, a_SetLong, a_SetLongLong, a_ArrayDel};
