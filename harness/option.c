/* Combining and merging of negotiated options, all bits symbolic. */
#include <milter/core/milter-option.h>
#include "vnd.h"
#define ACTIONS 0x1ffu
#define STEPS 0x1fffffu
#define NO_STEPS (MILTER_STEP_NO_CONNECT | MILTER_STEP_NO_HELO | MILTER_STEP_NO_ENVELOPE_FROM | MILTER_STEP_NO_ENVELOPE_RECIPIENT | MILTER_STEP_NO_BODY | \
    MILTER_STEP_NO_HEADERS | MILTER_STEP_NO_END_OF_HEADER | MILTER_STEP_NO_UNKNOWN | MILTER_STEP_NO_DATA | \
    MILTER_STEP_NO_REPLY_CONNECT | MILTER_STEP_NO_REPLY_HELO | MILTER_STEP_NO_REPLY_ENVELOPE_FROM | MILTER_STEP_NO_REPLY_ENVELOPE_RECIPIENT | \
    MILTER_STEP_NO_REPLY_DATA | MILTER_STEP_NO_REPLY_UNKNOWN | MILTER_STEP_NO_REPLY_END_OF_HEADER | MILTER_STEP_NO_REPLY_BODY | MILTER_STEP_NO_REPLY_HEADER)
#define YES_STEPS (MILTER_STEP_SKIP | MILTER_STEP_ENVELOPE_RECIPIENT_REJECTED | MILTER_STEP_HEADER_VALUE_WITH_LEADING_SPACE)

static int is (MilterOption *o, guint32 v, guint32 a, guint32 s)
{ return milter_option_get_version(o) == v && milter_option_get_action(o) == a && milter_option_get_step(o) == s; }

int main (void)
{
    guint32 v1 = nd_u32(), v2 = nd_u32(), a1 = nd_u32() & ACTIONS, a2 = nd_u32() & ACTIONS, s1 = nd_u32() & STEPS, s2 = nd_u32() & STEPS;
    VASSERT((NO_STEPS | YES_STEPS) == STEPS && !(NO_STEPS & YES_STEPS), "every step flag either forbids or asks for something");
    MilterOption *d = milter_option_new(v1, a1, s1), *o = milter_option_new(v2, a2, s2);
    VASSERT(is(d, v1, a1, s1) && is(o, v2, a2, s2), "an option keeps its values");
    MilterOption *c = milter_option_copy(d);
    VASSERT(is(c, v1, a1, s1) && milter_option_equal(c, d) && milter_option_equal(d, c), "a copy is equal");
    VASSERT(!!milter_option_equal(d, o) == (v1 == v2 && a1 == a2 && s1 == s2), "options are equal when their values are");
    VASSERT(milter_option_get_step_no(d) == (s1 & NO_STEPS), "the forbidding steps");
    VASSERT(milter_option_get_step_yes(d) == (s1 & YES_STEPS), "the asking steps");
    VASSERT(milter_option_get_step_no_reply(d) == (s1 & NO_STEPS & ~(MILTER_STEP_NO_CONNECT | MILTER_STEP_NO_HELO | MILTER_STEP_NO_ENVELOPE_FROM |
            MILTER_STEP_NO_ENVELOPE_RECIPIENT | MILTER_STEP_NO_BODY | MILTER_STEP_NO_HEADERS | MILTER_STEP_NO_END_OF_HEADER | MILTER_STEP_NO_UNKNOWN | MILTER_STEP_NO_DATA)),
            "the steps without reply");
    VASSERT((milter_option_get_step_no_event(d) | milter_option_get_step_no_reply(d)) == (s1 & NO_STEPS), "steps without event or reply");
#if OP == 'C'
    gboolean r = milter_option_combine(d, o);
    VASSERT(!!r == (v1 >= v2), "options are combined unless the other side is newer");
    if (r) VASSERT(is(d, v2, a1 & a2, s1 & s2), "combined options are what both sides know");
#elif OP == 'M'
    gboolean r = milter_option_merge(d, o);
    VASSERT(!!r == (v1 >= v2), "options are merged unless the other is newer");
    guint32 want = (s1 & s2 & NO_STEPS) | ((s1 | s2) & YES_STEPS);
    VASSERT(milter_step_flags_merge(s1, s2) == want && milter_step_flags_merge(s2, s1) == want, "merged steps: forbidden only when both forbid, asked for when one asks");
    if (r) VASSERT(is(d, v1, a1 | a2, want), "merged options serve both milters");
#else
    gboolean r = 1;
    guint32 x = nd_u32() & ACTIONS, y = nd_u32() & STEPS;
    milter_option_add_action(d, x); milter_option_remove_step(d, y);
    VASSERT(is(d, v1, a1 | x, s1 & ~y), "adding actions, removing steps");
    milter_option_add_step(d, y); milter_option_remove_action(d, x);
    VASSERT(is(d, v1, a1 & ~x, s1 | y), "adding steps, removing actions");
    milter_option_set_version(d, v2); milter_option_set_action(d, a2); milter_option_set_step(d, s2);
    VASSERT(is(d, v2, a2, s2) && milter_option_equal(d, o), "setting values");
#endif
    if (!r) VASSERT(is(d, v1, a1, s1), "a refused option changes nothing");
    VASSERT(is(c, v1, a1, s1), "a copy stands alone");
    VOBS(r); VOBS(milter_option_get_action(d)); VOBS(milter_option_get_step(d));
    VWITNESS_IF(r, "done");
#if OP != 'S'
    VASSERT(is(o, v2, a2, s2), "the other option stays as it is");
    VWITNESS_IF(!r, "refused");
#endif
    g_object_unref(d); g_object_unref(o); g_object_unref(c);
    return 0;
}
