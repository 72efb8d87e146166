// The part of ncurses that the monitor uses, after its documentation: windows of cells, wrapping at the right
// margin, scrolling only where allowed, errors (-1) instead of writing outside of a window.
#include "env.h"
#include "screen.h"
struct _win_st { int y, x, h, w, cy, cx; bool scroll, dead; QList<QByteArray> cell, shown; };
typedef _win_st W;
Screen &env_screen() { static Screen *s = new Screen; return *s; }
static QList<W *> &wins() { static QList<W *> *l = new QList<W *>; return *l; }
static QByteArray blank(int n) { return QByteArray(n, ' '); }
static void size(W *w, int h, int n) { while (w->cell.size() > h) w->cell.removeLast(); for (int i = 0; i < w->cell.size(); i++) { QByteArray &r = w->cell[i]; if (r.size() > n) r.truncate(n); else r.append(blank(n - r.size())); } while (w->cell.size() < h) w->cell.append(blank(n)); w->h = h; w->w = n; if (w->cy >= h) w->cy = h - 1; if (w->cx >= n) w->cx = n - 1; }
static W *make(int h, int n, int y, int x) { W *w = new W; w->y = y; w->x = x; w->cy = w->cx = 0; w->scroll = w->dead = false; size(w, h, n); wins().append(w); env_screen().created++; return w; }
static bool bad(W *w) { vp_assert(!w || !w->dead, "window used after it was deleted"); vp_assert(!env_screen().ended, "terminal used after it was left"); return !w; }
QStringList env_rows(int y) { QStringList r; for (int i = wins().size() - 1; i > 0; i--) { W *w = wins().at(i); if (w->y == y) { for (int k = 0; k < w->shown.size(); k++) r.append(QString::fromLatin1(w->shown.at(k))); break; } } return r; }
static int up(W *w, int n) { if (!w->scroll) return -1; for (; n > 0; n--) { w->cell.removeFirst(); w->cell.append(blank(w->w)); } for (; n < 0; n++) { w->cell.removeLast(); w->cell.prepend(blank(w->w)); } return 0; }
static int down(W *w) { w->cx = 0; if (w->cy + 1 < w->h) { w->cy++; return 0; } if (up(w, 1) == 0) return 0; w->cx = w->w - 1; return -1; }
static int put(W *w, char c)
{
    if (c == '\n') { for (int i = w->cx; i < w->w; i++) w->cell[w->cy][i] = ' '; return down(w); }
    w->cell[w->cy][w->cx] = c; if (w->cx + 1 < w->w) { w->cx++; return 0; } return down(w);
}
extern "C" {
W *stdscr; unsigned acs_map[128];
W *initscr() { vp_assert(!env_screen().started, "terminal entered twice"); env_screen().started++; return stdscr = make(env_screen().h, env_screen().w, 0, 0); }
bool has_colors() { return true; }
int start_color() { return 0; }
int init_pair(short, short, short) { return 0; }
int cbreak() { return 0; }
int noecho() { return 0; }
int nonl() { return 0; }
int nodelay(W *w, bool) { return bad(w) ? -1 : 0; }
int keypad(W *w, bool) { return bad(w) ? -1 : 0; }
int curs_set(int) { return 1; }
int werase(W *w) { if (bad(w)) return -1; for (int i = 0; i < w->h; i++) w->cell[i] = blank(w->w); w->cy = w->cx = 0; return 0; }
int wclear(W *w) { return werase(w); }
int clear() { return werase(stdscr); }
int getmaxx(W *w) { return bad(w) ? -1 : w->w; }
int getmaxy(W *w) { return bad(w) ? -1 : w->h; }
int wrefresh(W *w) { if (bad(w)) return -1; w->shown = w->cell; return 0; }
int refresh() { return wrefresh(stdscr); }
W *newwin(int h, int n, int y, int x) { if (h < 0 || n < 0 || y < 0 || x < 0) return 0; if (!h) h = env_screen().h - y; if (!n) n = env_screen().w - x; if (h <= 0 || n <= 0) return 0; return make(h, n, y, x); }
int scrollok(W *w, bool on) { if (bad(w)) return -1; w->scroll = on; return 0; }
int wresize(W *w, int h, int n) { if (bad(w) || h <= 0 || n <= 0) return -1; size(w, h, n); return 0; }
int wmove(W *w, int y, int x) { if (bad(w) || y < 0 || x < 0 || y >= w->h || x >= w->w) return -1; w->cy = y; w->cx = x; return 0; }
int waddch(W *w, unsigned c) { if (bad(w)) return -1; return put(w, c ? (char)c : '*'); }
int vp_mvwprintw(W *w, int y, int x, const char *f, const char *s) __asm__("mvwprintw");
int vp_mvwprintw(W *w, int y, int x, const char *f, const char *s)
{
    if (strcmp(f, "%s") != 0) { vp_assert(!strchr(f, '%'), "text of others used as a format"); s = f; }
    if (wmove(w, y, x) < 0) return -1; for (; *s; s++) if (put(w, *s) < 0) return -1; return 0;
}
int wscrl(W *w, int n) { return bad(w) ? -1 : up(w, n); }
int wgetch(W *w) { if (bad(w)) return -1; Screen &s = env_screen(); if (stdscr->h != s.h || stdscr->w != s.w) { size(stdscr, s.h, s.w); return 0632; } return s.keys.isEmpty() ? -1 : s.keys.takeFirst(); }
int delwin(W *w) { if (bad(w)) return -1; w->dead = true; env_screen().deleted++; return 0; }
int endwin() { vp_assert(env_screen().started == 1 && !env_screen().ended, "terminal left that was not entered"); env_screen().ended++; return 0; }
}
