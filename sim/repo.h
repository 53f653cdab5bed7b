// Includes of the code under test. Two manager headers open extern "C" and never close it,
// so the declaration macros are neutralised and one extern "C" block is used instead.
#pragma once
#include <glib.h>
#include <glib-object.h>
#include <gmodule.h>
#undef G_BEGIN_DECLS
#define G_BEGIN_DECLS
#undef G_END_DECLS
#define G_END_DECLS
extern "C" {
#include <milter/core.h>
#include <milter/client.h>
#include <milter/server.h>
#include <milter/manager.h>
#include <milter/manager/milter-manager-controller.h>
#include <libmilter/libmilter-compatible.h>
}
