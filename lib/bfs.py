"""Explicit-state breadth-first search over a real object."""
import time


def explore(ctx, init, events, step, depth, key=None, max_states=None):
  """Explores all histories of at most `depth` events from state `init`.

  init    initial state (any value; opaque)
  events  list of event names, or function(state, history) -> list
  step    function(state, event, history) -> next state, or None to not
          continue from there; it runs the real code and raises on violation
  key     function(state) -> hashable canonical form (all observable variables)
  Returns (number of distinct states, number of transitions, complete?).
  """
  key = key or (lambda s: s)
  seen = {key(init)}
  ctx.state((ctx.cur, key(init)))
  frontier, ntr, complete = [(init, ())], 0, True
  for d in range(depth):
    nxt = []
    for state, hist in frontier:
      evs = events(state, hist) if callable(events) else events
      for ev in evs:
        if ctx.over():
          return len(seen), ntr, False
        s2 = step(state, ev, hist + (ev,))
        ntr += 1
        ctx.trans()
        if s2 is None:
          ctx.trace()
          continue
        k = key(s2)
        if k not in seen:
          seen.add(k)
          ctx.state((ctx.cur, k))
          nxt.append((s2, hist + (ev,)))
          if max_states and len(seen) > max_states:
            ctx.truncated = True
            return len(seen), ntr, False
        else:
          ctx.trace()  # a path that ends in a known state
    frontier = nxt
    if not frontier:
      return len(seen), ntr, True
  ctx.trace(len(frontier))
  return len(seen), ntr, complete


def arr(vs):
  """Canonical bytes of a list of arrays."""
  import numpy as np
  return tuple((a.shape, str(a.dtype), np.ascontiguousarray(a).tobytes()) for a in map(np.asarray, vs))
