"""Lemmas: from the constraints that the contracts demand of the blocks to
the statements of the properties.  They are about the contracts, not about
the code; all arguments are arbitrary numbers."""


def product(on, invest, maximum, y):
    """C12: the linearised product of status and capacity is exact"""
    if (on == 0 or on == 1) and 0 <= invest and invest <= maximum:
        rows = (
            y >= 0
            and y <= maximum * on
            and y <= invest
            and y >= invest - maximum * (1 - on)
        )
        if rows:
            equal("C12", y, on * invest, "product of status and capacity")
        if y == on * invest:
            holds("C12", rows, "the product is allowed")


def switched(on, flow, low, high, y, capacity):
    """C10 C12: zero when off, between the limits when on"""
    if (on == 0 or on == 1) and y == on * capacity:
        if low * y <= flow and flow <= high * y:
            if on == 0:
                equal("C10 C12", flow, 0, "flow that is switched off")
            else:
                holds("C10 C12", low * capacity <= flow and flow <= high * capacity,
                      "flow that is switched on")


def indicators(on, before, startup, shutdown):
    """C10: indicators are at least the rise and fall of the status"""
    binary = (on == 0 or on == 1) and (before == 0 or before == 1)
    if binary and (startup == 0 or startup == 1) and (shutdown == 0 or shutdown == 1):
        if startup >= on - before and on == 1 and before == 0:
            equal("C10", startup, 1, "switching on is counted")
        if shutdown >= before - on and on == 0 and before == 1:
            equal("C10", shutdown, 1, "switching off is counted")


def window(total, k, on):
    """C10: n status values that sum up to n are all on.  Induction over the
    steps of the window; total: sum of the first k values"""
    equal("C10", 0, 0, "nothing sums up to nothing")
    if 0 <= k and total <= k and (on == 0 or on == 1):
        holds("C10", total + on <= k + 1, "a sum is at most the number of steps")
        if total + on == k + 1:
            holds("C10", total == k and on == 1, "all steps are on")


def minimum_time(on, before, up, total):
    """C10: after a start the window of `up` steps sums up to `up`; without a
    start nothing is demanded. total: sum of the status in the window"""
    if (on == 0 or on == 1) and (before == 0 or before == 1) and 0 <= up and 0 <= total:
        if (on - before) * up <= total:
            if on == 1 and before == 0:
                holds("C10", total >= up, "stays on after a start")
        if not (on == 1 and before == 0):
            holds("C10", (on - before) * up <= total, "nothing is demanded without a start")


def minimum_pause(on, before, down, total):
    """C10: the same for switching off; total: sum of the status in the window"""
    if (on == 0 or on == 1) and (before == 0 or before == 1) and 0 <= down:
        if 0 <= total and total <= down:
            if (before - on) * down <= down - total:
                if before == 1 and on == 0:
                    equal("C10", total, 0, "stays off after a stop")
            if not (before == 1 and on == 0):
                holds("C10", (before - on) * down <= down - total,
                      "nothing is demanded without a stop")


def gradient(now, last, rise, fall, up, down):
    """C04: the auxiliary variables bound the change, and nothing else"""
    if 0 <= rise and 0 <= fall and 0 <= up and 0 <= down:
        if now - last <= rise and rise <= up:
            holds("C04", now - last <= up, "the flow rises at most by the limit")
        if last - now <= fall and fall <= down:
            holds("C04", last - now <= down, "the flow falls at most by the limit")
    if 0 <= up and now - last <= up:
        r = now - last if now > last else 0
        holds("C04", 0 <= r and now - last <= r and r <= up, "every smaller rise is allowed")
    if 0 <= down and last - now <= down:
        r = last - now if last > now else 0
        holds("C04", 0 <= r and last - now <= r and r <= down, "every smaller fall is allowed")


def built(invest, status, low, high):
    """C07 C12 C16: non-convex investments: within the limits or nothing"""
    if (status == 0 or status == 1) and low * status <= invest and invest <= high * status:
        holds("C07 C12 C16", invest == 0 or (low <= invest and invest <= high),
              "nothing is built, or within the limits")
    if 0 <= low and low <= high and (invest == 0 or (low <= invest and invest <= high)):
        s = 0 if invest == 0 else 1
        holds("C07 C12 C16", low * s <= invest and invest <= high * s,
              "everything within the limits is allowed")


def by_level(content, level, flag, flow):
    """C18: inputs are off above their level, outputs below; content relative
    to the size of the storage, flow relative to its capacity"""
    if 0 <= content and content <= 1 and 0 <= level and level <= 1 and (flag == 0 or flag == 1):
        if content - level <= flag and flow <= 1 - flag and content > level:
            holds("C18", flow <= 0, "no input above its level")
        if content >= level * flag and flow <= flag and content < level:
            holds("C18", flow <= 0, "no output below its level")
    if 0 <= content and content <= level and flow <= 1:
        holds("C18", content - level <= 0 and flow <= 1 - 0, "input up to its level is allowed")
    if level <= content and flow <= 1:
        holds("C18", content >= level * 1 and flow <= 1, "output from its level on is allowed")


def capacity_history(total, before, invest, old, built, retired):
    """C08: the total is everything built minus everything retired so far.
    Induction over the periods; built, retired: sums of the earlier periods"""
    if before == built - retired and total == before + invest - old:
        equal("C08", total, (built + invest) - (retired + old), "capacity of a period")
