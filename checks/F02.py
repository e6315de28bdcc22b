import vlib


def run(c):
    c.model("MCCalendar")
    exe = vlib.driver("freq_drv")
    k = 12 if vlib.THOROUGH else 1
    p, _ = c.drive(exe, ["round", vlib.SEED, 1500 * k], name="round")
    c.validate("CalendarTrace", p)
    p, _ = c.drive(exe, ["garbage", vlib.SEED, 1500 * k], name="garbage")
    c.validate("CalendarTrace", p)
