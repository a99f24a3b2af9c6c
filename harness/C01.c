/* C01: queue and stack as sequences, any sequence of operations of the stated length. */
#include <stdlib.h>
#include "datastruct.h"
#include "sym.h"
#ifndef K
#define K 6
#endif
static int item[K + 1];
void h_queue(void) {
  struct queue *q = queue_create(); int ref[K], head = 0, tail = 0, i, pushed = 0;
  for (i = 0; i <= K; i++) item[i] = sym_int(-1000, 1000, "data");
  for (i = 0; i < K; i++) {
    int op = sym_pick(0, 2, "op");
    if (op == 0) { ref[tail++] = pushed; queue_enqueue(q, &item[pushed]); pushed++; }
    else if (op == 1) {
      int *p = queue_dequeue(q);
      if (head == tail) sym_assert(p == NULL, "dequeue of an empty queue returns NULL");
      else { sym_assert(p == &item[ref[head]], "dequeue returns the oldest element"); sym_assert(*p == item[ref[head]], "element data unchanged"); head++; sym_reach("dequeued"); }
    } else { queue_clear(q); head = tail; }
    sym_assert(queue_empty(q) == (head == tail), "reported emptiness is right");
    sym_assert(q->length == tail - head, "reported length is right");
    int *f = queue_first(q);
    if (head == tail) sym_assert(f == NULL, "first of an empty queue is NULL"); else sym_assert(f == &item[ref[head]], "first is the oldest element");
  }
  queue_free(q);
  for (i = 0; i < pushed; i++) sym_assert(item[i] >= -1000 && item[i] <= 1000, "elements survive");
  if (sym_symbolic()) sym_assert(sym_live_blocks() == 0, "queue releases all its memory");
  sym_reach("end");
}
void h_stack(void) {
  struct stack *s = stack_create(); int ref[K], n = 0, i, pushed = 0;
  for (i = 0; i <= K; i++) item[i] = sym_int(-1000, 1000, "data");
  for (i = 0; i < K; i++) {
    int op = sym_pick(0, 2, "op");
    if (op == 0) { ref[n++] = pushed; stack_push(s, &item[pushed]); pushed++; }
    else if (op == 1) {
      int *p = stack_pop(s);
      if (n == 0) sym_assert(p == NULL, "pop of an empty stack returns NULL");
      else { n--; sym_assert(p == &item[ref[n]], "pop returns the newest element"); sym_assert(*p == item[ref[n]], "element data unchanged"); sym_reach("popped"); }
    } else { stack_clear(s); n = 0; }
    sym_assert(stack_empty(s) == (n == 0), "reported emptiness is right");
    sym_assert(s->length == n, "reported length is right");
    int *t = stack_top(s);
    if (n == 0) sym_assert(t == NULL, "top of an empty stack is NULL"); else sym_assert(t == &item[ref[n - 1]], "top is the newest element");
  }
  stack_free(s);
  if (sym_symbolic()) sym_assert(sym_live_blocks() == 0, "stack releases all its memory");
  sym_reach("end");
}
