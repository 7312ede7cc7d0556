/**
 * Linked with the program: each time it waits for a key, tells the monitor what is on the screen, and waits to be told to go on.
 * Without VERIF_UI_FD in the environment the program behaves as usual.
 **/
#include <cerrno>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <dlfcn.h>
#include <unistd.h>
#ifndef _XOPEN_SOURCE_EXTENDED
# define _XOPEN_SOURCE_EXTENDED 1
#endif
#include <curses.h>
#ifdef getch
# undef getch
#endif
#ifdef wgetch
# undef wgetch
#endif

static int side = -2;
static int sidefd()
{
    if (side == -2) {
        const char *s = getenv("VERIF_UI_FD");
        side = s ? atoi(s) : -1;
    }
    return side;
}
static bool put(const void *p, size_t n)
{
    const char *c = (const char *) p;
    while (n) {
        ssize_t r = write(side, c, n);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) return false;
        c += r; n -= r;
    }
    return true;
}
extern "C" int wgetch(WINDOW *w)
{
    static int (*real)(WINDOW *) = (int (*)(WINDOW *)) dlsym(RTLD_NEXT, "wgetch");
    if (sidefd() < 0) return real(w);
    if (is_wintouched(w)) wrefresh(w); // as the real one does before waiting
    int rows, cols, cy, cx;
    getmaxyx(curscr, rows, cols);
    getyx(curscr, cy, cx);
    std::string m;
    int32_t head[6] = { 0x5343524e, rows, cols, cy, cx, w == stdscr };
    m.append((const char *) head, sizeof head);
    WINDOW *d = dupwin(curscr);
    for (int y = 0; y < rows; ++y)
        for (int x = 0; x < cols; ++x) {
            cchar_t wide;
            wchar_t chars[CCHARW_MAX + 1] = { 0 };
            attr_t a = 0;
            short fg = -1, bg = -1, p = 0;
            if (mvwin_wch(d, y, x, &wide) != ERR) getcchar(&wide, chars, &a, &p, nullptr);
            if (p && has_colors() && pair_content(p, &fg, &bg) == ERR) fg = bg = -1;
            const uint32_t code = chars[1] ? 0xffff : chars[0];
            const char cell[6] = { (char) (code < 127 ? code : 0xff), (char) ((a & A_REVERSE ? 1 : 0) | (a & A_BOLD ? 2 : 0) | (a & A_ALTCHARSET ? 4 : 0)), (char) (p ? fg : -1), (char) (p ? bg : -1), (char) code, (char) (code >> 8) };
            m.append(cell, 6);
        }
    delwin(d);
    if (!put(m.data(), m.size())) { side = -1; return real(w); }
    char cmd;
    ssize_t r;
    while ((r = read(side, &cmd, 1)) < 0 && errno == EINTR);
    if (r <= 0) { side = -1; return real(w); }
    if (cmd == 'e') return ERR; // nothing typed for a while
    return real(w);
}
