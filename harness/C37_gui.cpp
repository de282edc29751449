//@ reach: layout inside tree claimed deep overlap told focus selected drag button momentary toggled slider vertical zoom tabs scroll pane moved reaped removed frame muted forced drawn bars root
//@ bounds: layouts at every 15-bit position and size with any margins and borders that fit; a tree of 5 elements in 3 levels of which two overlap, with every 8-bit place, 14 kinds of event and one muted, inactive and any claiming elements; 3 events at a button; sliders of 12 pixels both ways, every touch, 3 events after any of 5 values; tab bars of 1 to 4 tabs with up to 3 events anywhere; images of 24x24 8-bit pixels, with every frame and border up to 2 pixels
//@ outside: the values overlaid on bars, bars smaller than 8 pixels, values out of range given to setters, touches that begin on one tab and end on another, tabbed panes that are not always redrawn, text areas, magnifiers, graphs and the other views of objects
//@ time: 300
#include "sx.h"
#include "rt_common.h"
#include "StringBuilder.h"
#include "Image/GfxUI.h"
typedef PriorityQueue<GfxUIElement*> Log;
static int gone;
class Spy : public GfxUIElement {
  public:
    int told = 0, drawn = 0; GfxUIEvent last = GfxUIEvent::NONE; int lx = -1, ly = -1; bool claims = false;
    Spy(GfxUILayout l, uint32_t f = 0) : GfxUIElement(&l, f) {}
    Spy(PixUInt x, PixUInt y, PixUInt w, PixUInt h, uint32_t f = 0) : GfxUIElement(x, y, w, h, f) {}
    Spy(GfxUILayout l, GfxUIStyle s, uint32_t f) : GfxUIElement(l, s, f) {}
    virtual ~Spy() { gone++; }
    int add(GfxUIElement* e) { return _add_child(e); }
    int rem(GfxUIElement* e) { return _remove_child(e); }
    bool dirty() { return _need_redraw(); }
    void flip(uint32_t f) { _class_flip_flag(f); }
    bool flag(uint32_t f) { return _class_flag(f); }
    bool _notify(const GfxUIEvent e, PixUInt x, PixUInt y, Log*) { told++; last = e; lx = x; ly = y; return claims; }
    int _render(UIGfxWrapper*) { drawn++; return 1; }
};
static void wipe(Log& l) { while (l.hasNext()) l.dequeue(); }
static int count(Log& l, GfxUIElement* e, GfxUIEvent k) { int n = 0; for (int i = 0; i < l.size(); i++) if (l.get(i) == e && l.getPriority(i) == (int) k) n++; return n; }

static void layout() {
  uint16_t x = sx_u16("x") & 0x7FFF, y = sx_u16("y") & 0x7FFF, w = sx_u16("w") & 0x7FFF, h = sx_u16("h") & 0x7FFF, px = sx_u16("px"), py = sx_u16("py"); uint8_t m[8]; for (int i = 0; i < 8; i++) m[i] = sx_u8("m");
  uint32_t how = sx_choose(4, "ctor"); GfxUILayout* l;
  if (how == 0) { for (int i = 1; i < 4; i++) m[i] = m[0]; for (int i = 5; i < 8; i++) m[i] = m[4]; l = new GfxUILayout(x, y, w, h, m[0], m[4]); }
  else if (how == 1) { for (int i = 4; i < 8; i++) m[i] = 0; l = new GfxUILayout(x, y, w, h, m[0], m[1], m[2], m[3]); }
  else if (how == 2) l = new GfxUILayout(x, y, w, h, m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7]);
  else { GfxUILayout a(x, y, w, h, m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7]); l = sx_choose(2, "copy") ? new GfxUILayout(&a) : new GfxUILayout(a); }
  sx_assert(l->elementPosX() == x && l->elementPosY() == y && l->elementWidth() == w && l->elementHeight() == h, "a layout is where it was put");
  sx_assert(l->internalPosX() == x + m[2] + m[6] && l->internalPosY() == y + m[0] + m[4], "content begins inside the margin and border");
  sx_assert((uint16_t) (l->internalWidth() + m[2] + m[3] + m[6] + m[7]) == w && (uint16_t) (l->internalHeight() + m[0] + m[1] + m[4] + m[5]) == h, "content ends inside the margin and border");
  sx_assert(l->xCornerUpperLeft() == x && l->xCornerLowerLeft() == x && l->xCornerUpperRight() == x + w && l->xCornerLowerRight() == x + w && l->yCornerUpperLeft() == y && l->yCornerUpperRight() == y && l->yCornerLowerLeft() == y + h && l->yCornerLowerRight() == y + h, "the corners of a layout");
  bool in = px >= x && (uint32_t) px < (uint32_t) x + w && py >= y && (uint32_t) py < (uint32_t) y + h; bool is = l->includesPoint(px, py); sx_assert(is == in, "a layout includes exactly the points on it");
  if (is) sx_reach("inside"); delete l; sx_reach("layout");
}

struct Nd { Spy* e; Nd* c[3]; int n, told, log; bool muted, off, focus, sel; };
static bool deep(GfxUIEvent k) { return k == GfxUIEvent::HOVER_IN || k == GfxUIEvent::HOVER_OUT || k == GfxUIEvent::SELECT || k == GfxUIEvent::UNSELECT || k == GfxUIEvent::IDENTIFY || k == GfxUIEvent::DRAG_START || k == GfxUIEvent::DRAG_STOP; }
static bool expect(Nd* a, GfxUIEvent k, uint16_t x, uint16_t y) {
  Spy* e = a->e; if (a->muted || x < e->elementPosX() || x >= e->elementPosX() + e->elementWidth() || y < e->elementPosY() || y >= e->elementPosY() + e->elementHeight()) return false;
  if (deep(k)) {
    for (int i = 0; i < a->n; i++) if (expect(a->c[i], k, x, y)) return true;
    if (k != GfxUIEvent::IDENTIFY) a->told++;
    a->log++; if (k == GfxUIEvent::HOVER_IN) a->focus = true; if (k == GfxUIEvent::HOVER_OUT) a->focus = false;
    if (e->claims) { if (k == GfxUIEvent::SELECT) a->sel = true; if (k == GfxUIEvent::UNSELECT) a->sel = false; } return true;
  }
  if (a->off) return false; a->told++; if (e->claims) return true;
  for (int i = 0; i < a->n; i++) if (expect(a->c[i], k, x, y)) return true;
  return false;
}
static void tree() {
  static const uint8_t K[] = {1, 2, 3, 9, 10, 15, 5, 6, 7, 8, 0x1C, 0x1D, 0x1E, 11}; GfxUIEvent k = (GfxUIEvent) K[sx_choose(14, "event")];
  Spy r(10, 10, 100, 60), a(10, 10, 50, 50), b(40, 20, 60, 40), c(20, 20, 20, 30), d(45, 25, 10, 10); Nd N[5]; Spy* S[5] = {&r, &a, &b, &c, &d};
  for (int i = 0; i < 5; i++) N[i] = Nd{S[i], {0, 0, 0}, 0, 0, 0, false, false, false, false};
  sx_assert(!r.add(&a) && !r.add(&b) && !a.add(&c) && !a.add(&d), "children are added"); N[0].n = 2; N[0].c[0] = &N[1]; N[0].c[1] = &N[2]; N[1].n = 2; N[1].c[0] = &N[3]; N[1].c[1] = &N[4];
  uint32_t mu = sx_choose(6, "muted"), of = deep(k) ? 5 : sx_choose(6, "inactive"); if (mu < 5) { S[mu]->muteRender(true); N[mu].muted = true; } if (of < 5) { S[of]->elementActive(false); N[of].off = true; }
  bool sel0 = sx_choose(2, "selected"); uint8_t cl = sx_u8("claims"); for (int i = 0; i < 5; i++) { S[i]->claims = (cl >> i) & 1; S[i]->isFocused(sel0); S[i]->isSelected(sel0); N[i].focus = N[i].sel = sel0; }
  uint16_t x = sx_u8("x"), y = sx_u8("y"); Log log; bool e = expect(&N[0], k, x, y), got = r.notify(k, x, y, &log); sx_assert(got == e, "an event is claimed if some element claims it"); if (e) sx_reach(deep(k) ? "deep" : "claimed");
  int logs = 0;
  for (int i = 0; i < 5; i++) {
    sx_assert(S[i]->told == N[i].told, "each element is told of an event once, if it should be"); if (N[i].told) { sx_assert(S[i]->last == k && S[i]->lx == x && S[i]->ly == y, "an element is told the event and the place"); sx_reach("told"); }
    sx_assert(S[i]->isFocused() == N[i].focus && S[i]->isSelected() == N[i].sel, "focus and selection are those of the event"); sx_assert(count(log, S[i], k) == N[i].log, "the log tells the innermost element"); logs += N[i].log;
    sx_assert(S[i]->muteRender() == N[i].muted && S[i]->elementActive() == !N[i].off, "events don't mute elements"); if (N[i].focus && !sel0) sx_reach("focus"); if (N[i].sel && !sel0) sx_reach("selected");
  }
  sx_assert(log.size() == logs, "nothing else is logged"); if (N[1].told && N[2].told) sx_reach("overlap"); sx_reach("tree");
}
static void drag() {
  Spy r(0, 0, 300, 300), a(10, 10, 20, 20), b(14, 12, 4, 4); r.add(&a); a.add(&b); bool on = sx_choose(2, "draggable"); a.isDraggable(on); Log log; int ax = 10, ay = 10; bool dr = false; b.muteRender(true);
  for (int i = 0; i < 3; i++) {
    bool start = sx_choose(2, "start"); int x = i < 2 ? ax + (int) sx_range(0, 19, "x") : ax + 3 * i, y = i < 2 ? ay + (int) sx_range(0, 19, "y") : ay + i; wipe(log); int t = a.told;
    sx_assert(r.notify(start ? GfxUIEvent::DRAG_START : GfxUIEvent::DRAG_STOP, x, y, &log), "a drag is claimed"); if (on && dr) { ax = x; ay = y; } if (on) dr = start;
    sx_assert(a.told == t + 1 && r.told == 0 && b.told == 0, "the element is told once of a drag"); sx_assert(a.isDragging() == dr, "an element is dragged from start to stop, if at all"); sx_assert(a.elementPosX() == ax && a.elementPosY() == ay, "an element follows its drag"); sx_assert(b.elementPosX() == ax + 4 && b.elementPosY() == ay + 2, "children follow the drag");
    sx_assert(count(log, &a, start ? GfxUIEvent::DRAG_START : GfxUIEvent::DRAG_STOP) == 1 && log.size() == 1, "a drag is logged once");
  }
  sx_reach("drag");
}
static GfxUIEvent anyEvent() { static const uint8_t K[] = {1, 2, 9, 3}; return (GfxUIEvent) K[sx_choose(4, "event")]; }
static void button() {
  bool mom = sx_choose(2, "momentary"), st = sx_choose(2, "state"), text = sx_choose(2, "text"); GfxUILayout l(5, 6, 20, 10); GfxUIStyle s; GfxUIButton* b = text ? new GfxUITextButton(l, s, "x", mom ? GFXUI_BUTTON_FLAG_MOMENTARY : 0) : new GfxUIButton(l, s); b->momentary(mom); b->pressed(st); Log log;
  for (int i = 0; i < 3; i++) {
    GfxUIEvent k = anyEvent(); uint8_t x = sx_u8("x"), y = sx_u8("y"); bool in = x >= 5 && x < 25 && y >= 6 && y < 16, t = k == GfxUIEvent::TOUCH, r = k == GfxUIEvent::RELEASE; wipe(log); bool got = b->notify(k, x, y, &log), was = st;
    if (in && mom && (t || r)) st = t; if (in && !mom && r) st = !st; bool ch = in && ((mom && (t || r)) || (!mom && r));
    sx_assert(got == (in && (t || r)), "a button claims touches and releases on it"); sx_assert(b->pressed() == st, "buttons toggle on release, or follow the touch"); sx_assert(count(log, b, GfxUIEvent::VALUE_CHANGE) == (ch ? 1 : 0) && count(log, b, k) == (got ? 1 : 0) && log.size() == (got ? 1 : 0) + (ch ? 1 : 0), "a button reports what changed");
    if (ch && mom) sx_reach("momentary"); if (ch && !mom && was != st) sx_reach("toggled");
  }
  delete b; sx_reach("button");
}
static float fclip(float v) { return v < 0 ? 0 : (v > 1 ? 1 : v); }
static bool near(float a, float b) { float d = a - b; return d < 0.00001f && d > -0.00001f; }
static void slider() {
  bool v = sx_choose(2, "vertical"), zoom = sx_choose(2, "zoom"); GfxUILayout l(3, 4, 16, 18, 1, 1, 1, 1, 1, 1, 1, 1); if (!v) l = GfxUILayout(3, 4, 16, 18, 1, 1, 1, 1, 1, 1, 1, 1); GfxUIStyle s; Log log; uint32_t f = v ? GFXUI_SLIDER_FLAG_VERTICAL : 0; GfxUISlider a(l, s, f); GfxUIZoomSlider z(l, s, f); GfxUIElement* e = zoom ? (GfxUIElement*) &z : (GfxUIElement*) &a;
  static const float V[] = {0.0f, 0.004f, 0.5f, 0.995f, 1.0f}; float val = V[sx_choose(5, "value")], w0 = 0; if (!zoom) a.value(val); else { static const float W[] = {0.0f, 0.003f, 0.2f, 1.0f}; w0 = W[sx_choose(4, "width")]; if (sx_choose(2, "order")) z.value(0, w0); else z.value(w0, 0); sx_assert(near(z.markWidth(), w0) && near(z.value(), w0 / 2), "the bounds of the mark"); z.value(val); }
  float p = zoom ? z.value() : a.value(), w = zoom ? z.markWidth() : 0; if (zoom) { float c = val < w0 / 2 ? w0 / 2 : (val > 1 - w0 / 2 ? 1 - w0 / 2 : val); sx_assert(near(p, c) && near(w, w0), "a mark is centered as far as it fits"); } else sx_assert(p == val, "a slider holds the value it was given");
  for (int i = 0; i < 2; i++) {
    static const uint8_t K[] = {1, 2, 9, 10, 0x1D, 3}; GfxUIEvent k = (GfxUIEvent) K[sx_choose(6, "event")]; bool put = k == GfxUIEvent::TOUCH || k == GfxUIEvent::DRAG_START; int t = put ? (int) sx_choose(v ? 18 : 16, "at") : 5, L = v ? 14 : 12, in = t - 2; wipe(log);
    bool got = e->notify(k, v ? 9 : 3 + t, v ? 4 + t : 9, &log); float q = zoom ? z.value() : a.value(), u = zoom ? z.markWidth() : 0; bool up = k == GfxUIEvent::MOVE_UP, dn = k == GfxUIEvent::MOVE_DOWN;
    sx_assert(got == (k != GfxUIEvent::PRESSURE), "a slider claims what it understands"); float want = p, wantw = w;
    if (put) { want = fclip((float) in / L); if (v) want = 1 - want; if (zoom) { if (want < w / 2) want = w / 2; if (want > 1 - w / 2) want = 1 - w / 2; } }
    else if (!zoom) { if (up) want = fclip(p + 0.01f); if (dn) want = fclip(p - 0.01f); }
    else if (up) { float lo = fclip(p - w / 2 - 0.005f), hi = fclip(p + w / 2 + 0.005f); want = (lo + hi) / 2; wantw = hi - lo; } else if (dn) { wantw = w < 0.01f ? 0 : w - 0.01f; }
    sx_assert(near(q, want), "a slider goes to where it was touched, or by steps"); if (zoom) sx_assert(near(u, wantw), "the mark keeps its width, or is widened and narrowed by steps"); sx_assert(q >= -0.00001f && q <= 1.00001f, "a slider stays in range");
    bool ch = q != p || u != w; if (got && !near(want, p)) ch = true; if (!got || k == GfxUIEvent::RELEASE) ch = false; int n = count(log, e, GfxUIEvent::VALUE_CHANGE); sx_assert(n == (ch ? 1 : 0) || (n == 1 && !ch && zoom && (put || up || dn)), "a change of value is reported, and nothing else is");
    sx_assert(count(log, e, GfxUIEvent::DRAG_START) == (put ? 1 : 0) && count(log, e, GfxUIEvent::DRAG_STOP) == (k == GfxUIEvent::RELEASE ? 1 : 0), "a touch begins a drag and a release ends it"); p = q; w = u;
  }
  sx_reach(v ? "vertical" : "slider"); if (zoom) sx_reach("zoom");
}
class Bar : public GfxUITabBar { public: Bar(GfxUILayout l, uint32_t f = 0) : GfxUITabBar(l, GfxUIStyle(), f) {} GfxUIButton* tab(int i) { return (GfxUIButton*) _children.get(i); } };
static void tabs() {
  bool cyc = sx_choose(2, "cycle"); Bar bar(GfxUILayout(10, 5, 120, 20), cyc ? GFXUI_TABBAR_FLAG_SCROLL_CYCLES_TABS : 0); int n = 1 + sx_choose(4, "tabs"), cur = -1; for (int i = 0; i < n; i++) { bool s = sx_choose(2, "sel"); sx_assert(bar.addTab("t", s) == 0, "a tab is added"); if (s) cur = i; }
  sx_assert(bar.tabCount() == n, "tabs are counted"); Log log; int W = 120 / n;
  for (int i = 0; i < n; i++) sx_assert(bar.tab(i)->elementPosX() == 10 + W * i && bar.tab(i)->elementWidth() == W && bar.tab(i)->elementPosY() == 5 && bar.tab(i)->elementHeight() == 20, "tabs share the bar evenly");
  for (int k = 0; k < (THOROUGH ? 3 : 2); k++) {
    for (int i = 0; i < n; i++) { sx_assert(bar.tab(i)->pressed() == (i == cur), "exactly the selected tab is pressed"); sx_assert(bar.tab(i)->elementActive() == (i != cur), "the selected tab is not selected again"); }
    if (cur >= 0) sx_assert(bar.activeTab() == cur, "the active tab is the one last selected");
    static const uint8_t K[] = {1, 2, 9, 10}; GfxUIEvent ev = (GfxUIEvent) K[sx_choose(4, "event")]; uint8_t x = sx_u8("x"); if (ev != GfxUIEvent::TOUCH) sx_assume(x >= 10 && x < 130); bool inb = x >= 10 && x < 130; wipe(log); bool got = bar.notify(ev, x, 9, &log);
    if (ev == GfxUIEvent::TOUCH) { int hit = -1; for (int i = 0; i < n; i++) if (inb && x >= 10 + W * i && x < 10 + W * (i + 1)) hit = i; for (int i = 0; i < n; i++) sx_assert(count(log, bar.tab(i), ev) == (hit == i && hit != cur ? 1 : 0), "the touched tab is told once"); sx_assert(got == (hit >= 0 && hit != cur), "a touch on another tab is claimed"); if (hit >= 0) cur = hit; }
    else if (ev == GfxUIEvent::RELEASE) sx_assert(got, "a release is claimed");
    else { sx_assert(got == cyc, "scrolling is claimed if it selects"); if (cyc && cur >= 0) { cur = (cur + (ev == GfxUIEvent::MOVE_UP ? 1 : n - 1)) % n; sx_reach("scroll"); } }
  }
  for (int i = 0; i < n; i++) sx_assert(bar.tab(i)->pressed() == (i == cur), "exactly the selected tab is pressed"); if (cur >= 0) sx_assert(bar.activeTab() == cur, "the active tab is the one last selected"); sx_reach("tabs");
}
static uint8_t px[32 * 32];
static void pane() {
  memset(px, 0, sizeof(px)); Image img(32, 32, ImgBufferFormat::GREY_8, px); UIGfxWrapper g(&img); GfxUITabbedContentPane p(GfxUILayout(0, 0, 200, 100), GfxUIStyle(), GFXUI_FLAG_ALWAYS_REDRAW); Spy c0(0, 0, 1, 1), c1(0, 0, 1, 1), c2(0, 0, 1, 1); Spy* C[3] = {&c0, &c1, &c2}; for (int i = 0; i < 3; i++) { sx_assert(p.addTab("t", C[i], i == 0) == 0, "a tab is added"); C[i]->claims = true; }
  for (int i = 0; i < 3; i++) sx_assert(C[i]->elementPosX() == 0 && C[i]->elementPosY() == 20 && C[i]->elementWidth() == 200 && C[i]->elementHeight() == 80, "contents take what the tabs leave");
  int cur = 0; Log log; for (int k = 0; k < 2; k++) {
    p.render(&g); for (int i = 0; i < 3; i++) { sx_assert(C[i]->elementActive() == (i == cur) && C[i]->muteRender() == (i != cur), "exactly the content of the active tab is shown"); C[i]->drawn = C[i]->told = 0; } sx_assert(p.activeTab() == cur, "the pane shows the active tab");
    p.render(&g, true); for (int i = 0; i < 3; i++) sx_assert((C[i]->drawn > 0) == (i == cur), "exactly the content of the active tab is drawn");
    uint32_t x = sx_u8("cx"), y = 25 + sx_range(0, 60, "cy"); bool in = x < 200; p.notify(GfxUIEvent::TOUCH, x, y, &log); for (int i = 0; i < 3; i++) sx_assert(C[i]->told == (i == cur && in ? 1 : 0), "only the content of the active tab is touched");
    int n = sx_choose(3, "tab"); p.notify(GfxUIEvent::TOUCH, 5 + 66 * n + sx_choose(2, "dx") * 40, 8, &log); cur = n;
  }
  p.render(&g); sx_assert(p.activeTab() == cur && !C[cur]->muteRender(), "a touched tab is shown"); sx_reach("pane");
}
static void moves() {
  gone = 0; uint32_t ox = sx_u16("ox") & 0x7FF, oy = sx_u16("oy") & 0x7FF, nx = sx_u16("nx") & 0x7FF, ny = sx_u16("ny") & 0x7FF; uint8_t reap = sx_u8("reap");
  { Spy r(ox, oy, 50, 50); Spy* a = new Spy(ox + 5, oy + 6, 20, 20); Spy* b = new Spy(ox + 30, oy + 1, 9, 9); Spy* c = new Spy(ox + 7, oy + 9, 3, 3); r.add(a); r.add(b); a->add(c); r.flip(GFXUI_FLAG_NEED_RERENDER); bool want = r.dirty(); r.flip(GFXUI_FLAG_NEED_RERENDER); sx_assert(r.dirty() != want, "a flag is flipped"); if (r.dirty()) r.flip(GFXUI_FLAG_NEED_RERENDER);
    r.reposition(nx, ny); sx_assert(r.elementPosX() == nx && r.elementPosY() == ny && a->elementPosX() == nx + 5 && a->elementPosY() == ny + 6 && b->elementPosX() == nx + 30 && b->elementPosY() == ny + 1 && c->elementPosX() == nx + 7 && c->elementPosY() == ny + 9, "everything in an element moves with it"); sx_assert(r.elementWidth() == 50 && a->elementHeight() == 20 && r.dirty() && a->dirty(), "what moved keeps its size and is drawn again");
    bool ra = sx_branch(reap & 1), rb = sx_branch(reap & 2), rc = sx_branch(reap & 4); a->shouldReap(ra); b->shouldReap(rb); c->shouldReap(rc); bool out = sx_choose(2, "remove"); if (out) { sx_assert(r.rem(b) == 0, "a child is removed"); sx_assert(r.rem(b) == -1, "and then no longer there"); r.reposition(0, 0); sx_assert(b->elementPosX() == nx + 30, "what was removed stays"); sx_reach("removed"); }
    sx_assert(gone == 0, "nothing is freed early"); { Spy* ka = ra ? nullptr : a; Spy* kc = rc ? nullptr : c; Spy* kb = (rb && !out) ? nullptr : b; r.~Spy(); int e = 1 + (ra ? 1 + (rc ? 1 : 0) : 0) + (kb ? 0 : 1); sx_assert(gone == e, "what is to be reaped is freed with its parent, once"); if (gone > 1) sx_reach("reaped"); if (ka) { delete ka; } if (kc) delete kc; if (kb) delete kb; new (&r) Spy(0, 0, 1, 1); }
  }
  sx_reach("moved");
}
static void frames() {
  memset(px, 9, sizeof(px)); Image img(24, 24, ImgBufferFormat::GREY_8, px); UIGfxWrapper g(&img); uint32_t fl = sx_choose(16, "sides") << 2; int bt = sx_choose(3, "t"), bb = sx_choose(3, "b"), bl = 1 + sx_choose(2, "l"), br = 1 + sx_choose(2, "r"); GfxUIStyle st(1, 7, 2, 3, 4, 5, 6); Spy e(GfxUILayout(3, 4, 12, 10, 0, 0, 0, 0, bt, bb, bl, br), st, 0); bool late = sx_choose(2, "late"); if (late) { e.enableFrames(); e.render(&g); memset(px, 9, sizeof(px)); } e.enableFrames(fl); e.drawn = 0; sx_assert(e.render(&g) == 1 && e.drawn == 1, "a framed element is drawn");
  for (int x = 0; x < 24; x++) for (int y = 0; y < 24; y++) { bool in = x >= 3 && x < 15 && y >= 4 && y < 14; bool w = in && (((fl & GFXUI_FLAG_DRAW_FRAME_U) && y < 4 + bt) || ((fl & GFXUI_FLAG_DRAW_FRAME_D) && y >= 14 - bb) || ((fl & GFXUI_FLAG_DRAW_FRAME_L) && x < 3 + bl) || ((fl & GFXUI_FLAG_DRAW_FRAME_R) && x >= 15 - br)); sx_assert(img.getPixel(x, y) == (w ? 7 : 9), "frames are drawn on their sides, as wide as the border"); }
  sx_reach("frame");
}
static void renders() {
  memset(px, 0, sizeof(px)); Image img(24, 24, ImgBufferFormat::GREY_8, px); UIGfxWrapper g(&img); GfxUIRoot r(&g); Spy a(0, 0, 5, 5), b(5, 5, 5, 5), c(1, 1, 2, 2); r.add_child(&a); r.add_child(&b); a.add(&c); Spy* S[3] = {&a, &b, &c}; sx_assert(r.elementWidth() == 24 && r.elementHeight() == 24 && r.elementPosX() == 0, "a root takes the entire image");
  bool d[3] = {true, true, true}, m[3] = {false, false, false}, al[3] = {false, false, false};
  for (int k = 0; k < 3; k++) {
    uint32_t who = sx_choose(3, "who"); switch (sx_choose(4, "act")) { case 0: break; case 1: m[who] = !m[who]; S[who]->muteRender(m[who]); if (!m[who]) d[who] = true; break; case 2: S[who]->setMargins(0, 0, 0, 0); d[who] = true; break; default: S[who]->resize(2, 2); d[who] = true; }
    bool force = sx_choose(2, "force"); int e[3], n = 0; for (int i = 0; i < 3; i++) S[i]->drawn = 0; bool mc = m[2] || m[0]; for (int i = 0; i < 3; i++) { bool off = i == 2 ? mc : m[i]; e[i] = !off && (force || d[i]) ? 1 : 0; n += e[i]; if (!off) d[i] = false; if (m[i]) sx_reach("muted"); }
    int got = force ? ((GfxUIElement*) &r)->render(&g, true) : r.render(); for (int i = 0; i < 3; i++) sx_assert(S[i]->drawn == e[i], "an element is drawn if it needs to, is forced to, and isn't muted"); sx_assert(got == n, "what was drawn is counted"); if (force && n == 3) sx_reach("forced"); (void) al;
  }
  r.remove_child(&a); r.remove_child(&b); sx_reach("root");
}
static void bars() {
  memset(px, 9, sizeof(px)); Image img(24, 24, ImgBufferFormat::GREY_8, px); UIGfxWrapper g(&img); g.bg_color = 1; g.fg_color = 2; uint32_t k = sx_choose(6, "kind"); int w = 8 + 4 * sx_choose(3, "w"), h = 8 + 2 * sx_choose(4, "h"); static const float V[] = {0.0f, 0.25f, 0.5f, 0.75f, 1.0f}; uint32_t i0 = sx_choose(5, "v0"), i1 = k < 2 || k > 3 ? i0 : sx_choose(5, "v1"); if (k == 2) sx_assume(i0 <= i1); float v0 = V[i0], v1 = V[i1]; GfxUIStyle st(1, 7, 2, 3, 4, 5, 6); int X = 3, Y = 2; bool press = i0 > 2, act = i0 & 1;
  switch (k) { case 0: g.drawProgressBarH(X, Y, w, h, 5, true, false, v0); break; case 1: g.drawProgressBarV(X, Y, w, h, 5, true, false, v0); break; case 2: g.drawZoomBarH(X, Y, w, h, 5, false, v0, v1); break; case 3: g.drawZoomBarV(X, Y, w, h, 5, false, v0, v1); break;
    case 4: { GfxUISlider s(GfxUILayout(X, Y, w, h), st, i1 & 1 ? GFXUI_SLIDER_FLAG_VERTICAL : 0); s.value(v0); sx_assert(s.render(&g) == 1 && s.render(&g) == 0, "a slider is drawn once"); break; } default: { GfxUIButton b(GfxUILayout(X, Y, w, h), st); b.pressed(press); b.elementActive(act); sx_assert(b.render(&g) == 1 && b.render(&g) == 0, "a button is drawn once"); } }
  for (int x = 0; x < 24; x++) for (int y = 0; y < 24; y++) if (x < X || y < Y || x >= X + w || y >= Y + h) sx_assert(img.getPixel(x, y) == 9, "elements are drawn within their bounds");
  uint32_t fill = k == 4 ? 3 : 5, edge = k == 5 ? 7 : 2; sx_assert(img.getPixel(X + w / 2, Y) == edge && img.getPixel(X, Y + h / 2) == edge && img.getPixel(X + w - 1, Y + h / 2) == edge && img.getPixel(X + w / 2, Y + h - 1) == edge, "elements have their outline");
  if (k == 5) { sx_assert(img.getPixel(X + w / 2, Y + h / 2) == (press ? (act ? 3u : 4u) : 1u), "a button shows whether it is pressed"); sx_reach("drawn"); return; }
  bool vert = k == 1 || k == 3 || (k == 4 && (i1 & 1)); int L = (vert ? h : w) - 2; float lo = v0 < v1 ? v0 : v1, hi = v0 < v1 ? v1 : v0; if (k < 2 || k == 4) lo = 0; int from = lo * L, to = hi * L;
  for (int t = 0; t < L; t++) { uint32_t p = vert ? img.getPixel(X + w / 2, Y + h - 2 - t) : img.getPixel(X + 1 + t, Y + h / 2); bool on = t >= from && t < to; if (to - from == 2 || (from == 0 && L - to == 2 && !(k == 2 || k == 3))) continue; sx_assert(p == (on ? fill : 1u), "a bar is filled as far as its value"); }
  sx_reach("bars");
}
int sx_main() {
  switch (sx_choose(11, "part")) { case 0: layout(); break; case 1: tree(); break; case 2: drag(); break; case 3: button(); break; case 4: slider(); break; case 5: tabs(); break; case 6: pane(); break; case 7: moves(); break; case 8: frames(); break; case 9: renders(); break; default: bars(); }
  return 0;
}
