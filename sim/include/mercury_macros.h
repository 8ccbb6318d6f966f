#ifndef SIM_MERCURY_MACROS_H
#define SIM_MERCURY_MACROS_H
#include "mercury.h"
#include <boost/preprocessor.hpp>
/* Generate struct and proc function, like Mercury's own macro of that name */
#define HG_GEN_FIELD(r, data, p) BOOST_PP_TUPLE_ELEM(2, 0, p) BOOST_PP_TUPLE_ELEM(2, 1, p);
#define HG_GEN_PROC_FIELD(r, data, p)                                                                        \
    ret = BOOST_PP_CAT(hg_proc_, BOOST_PP_TUPLE_ELEM(2, 0, p))(proc, &sd->BOOST_PP_TUPLE_ELEM(2, 1, p));     \
    if (ret != HG_SUCCESS)                                                                                   \
        return ret;
#define MERCURY_GEN_PROC(name, fields)                                                                       \
    typedef struct {                                                                                         \
        BOOST_PP_SEQ_FOR_EACH(HG_GEN_FIELD, , fields)                                                        \
    } name;                                                                                                  \
    static inline hg_return_t BOOST_PP_CAT(hg_proc_, name)(hg_proc_t proc, void *data)                       \
    {                                                                                                        \
        hg_return_t ret = HG_SUCCESS;                                                                        \
        name *      sd  = (name *)data;                                                                      \
        BOOST_PP_SEQ_FOR_EACH(HG_GEN_PROC_FIELD, , fields)                                                   \
        return ret;                                                                                          \
    }
#define MERCURY_GEN_STRUCT_PROC MERCURY_GEN_PROC
#endif
