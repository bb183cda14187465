/* P04: message delivery.  Real code: src/exception.c */
#include "vp.h"
#include "exception.h"
#include "exception.c"

static int calls, last_type;
static const char *last_msg;
static void *last_data;
static void client(const char *msg, at_msg_type t, void *data)
{
  calls++; last_msg = msg; last_type = t; last_data = data;
}

/* Inductive: from any reachable state (not set / warning / fatal), one step. */
void h_step(void)
{
  int data;
  bool has = nd_bool();
  int st = nd_u8();
  VP_ASSUME(st == AT_MSG_NOT_SET || st == AT_MSG_WARNING || st == AT_MSG_FATAL);
  at_exception_type e = at_exception_new(has ? client : NULL, &data);
  VP_ASSERT(!at_exception_got_fatal(&e), "P04 a new exception record is not fatal");
  VP_ASSERT(calls == 0, "P04 creating an exception record reports nothing");
  e.msg_type = st;
  VP_ASSERT(at_exception_got_fatal(&e) == (st == AT_MSG_FATAL), "P04 fatal is reported exactly for fatal records");
  const char *m = nd_bool() ? "some text" : NULL;
  if (nd_bool()) {
    at_exception_fatal(&e, m);
    VP_ASSERT(at_exception_got_fatal(&e), "P04 raising a fatal error makes the record fatal");
    VP_ASSERT(!has || last_type == AT_MSG_FATAL, "P04 the client is told that the message is fatal");
  } else {
    at_exception_warning(&e, m);
    VP_ASSERT(at_exception_got_fatal(&e) == (st == AT_MSG_FATAL), "P04 a warning never raises nor clears the fatal state");
    VP_ASSERT(!has || last_type == AT_MSG_WARNING, "P04 the client is told that the message is a warning");
    if (st != AT_MSG_FATAL) VP_REACH("warning");
  }
  VP_ASSERT(calls == (has ? 1 : 0), "P04 the client sees each message exactly once");
  VP_ASSERT(!has || (last_msg == m && last_data == &data), "P04 the client gets the text and its own data");
  VP_ASSERT(e.client_func == (has ? client : NULL) && e.client_data == &data, "P04 raising a message keeps the client registered");
  VP_REACH("step");
}

void h_null(void)
{
  at_exception_fatal(NULL, "x");
  at_exception_warning(NULL, "x");
  VP_ASSERT(calls == 0, "P04 without a record nothing is reported");
  VP_REACH("null");
}
