// Stand-in for the terminal of ncurses (env/curses.cpp).
#pragma once
#include <QtCore/QtCore>
struct Screen { int h, w, started, ended, created, deleted; QList<int> keys; Screen() : h(0), w(0), started(0), ended(0), created(0), deleted(0) {} };
Screen &env_screen();
QStringList env_rows(int y);          // what the window that begins in that row last put on the screen
