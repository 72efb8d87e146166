// Running a whole program of /repo: its main() is called as server_main() by the harness.
#pragma once
#include "env.h"
#include <stdio.h>
extern void (*env_on_exec)();                 // the event loop of the application runs
extern bool env_quit;                         // QCoreApplication::quit() was called
extern int env_exec_code;                     // exec() returns it
QByteArray &env_printed();                    // written to the standard output by fprintf
struct Sig { int no; void (*handler)(int); };
QList<Sig> &env_signals();                    // handlers installed last
bool env_signal(int no);                      // the signal arrives; false: not handled
extern "C" int program_main(int argc, char **argv);
int env_program(const QList<QByteArray> &args); // main() with these arguments
QtMessageHandler env_message_handler();       // the one installed
