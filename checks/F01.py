import vlib


def run(c):
    c.model("MCCalendar")
    exe = vlib.driver("freq_drv")
    k = 12 if vlib.THOROUGH else 1
    p, _ = c.drive(exe, ["moves", vlib.SEED, 1600 * k], name="moves")
    c.validate("CalendarTrace", p)
    p, _ = c.drive(exe, ["mixed", vlib.SEED, 400 * k], name="mixed")
    c.validate("CalendarTrace", p)
    p, _ = c.drive(exe, ["weeks", vlib.SEED, 1], name="weeks")
    c.validate("CalendarTrace", p)
