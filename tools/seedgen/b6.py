SH='''
#!/bin/bash
# exit 0: the property holds; run with cwd = repository after the build
here=$(cd "$(dirname "$0")" && pwd)
export DEMO_DIR=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$DEMO_DIR"' EXIT
export LD_LIBRARY_PATH=$PWD/_build/libnymea-remoteproxy:$PWD/_build/libnymea-remoteproxyclient TZ=UTC TERM=xterm LC_ALL=C.UTF-8
timeout 120 python3 "$here/demo.py" "$PWD/_build"
'''
PRE='''
import os,sys,socket,subprocess,time,signal,json,threading
B=sys.argv[1]; D=os.environ["DEMO_DIR"]; os.chdir(D); R=os.path.dirname(B)
def fail(m): print("FAIL:",m); sys.exit(1)
def port():
    s=socket.socket(); s.bind(("127.0.0.1",0)); p=s.getsockname()[1]; s.close(); return p
def conf(log="proxy.log",write=False):
    global P; P=port(); W=port()
    open("p.conf","w").write("[ProxyServer]\\nname=t\\nwriteLogs=%s\\nlogFile=%s\\nmonitorSocket=%s/mon.sock\\n[SSL]\\nenabled=false\\ncertificate=%s/tests/resources/test-certificate.crt\\ncertificateKey=%s/tests/resources/test-certificate.key\\n[UnixSocketServerTunnelProxy]\\nunixSocketFileName=%s/u.sock\\n[WebSocketServerTunnelProxy]\\nhost=127.0.0.1\\nport=%d\\n[TcpServerTunnelProxy]\\nhost=127.0.0.1\\nport=%d\\n"%("true" if write else "false",log,D,R,R,D,W,P))
def server(*a):
    p=subprocess.Popen([B+"/server/nymea-remoteproxy","-c","p.conf"]+list(a),stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
    for i in range(100):
        time.sleep(.05)
        if p.poll() is not None: return p
        try: socket.create_connection(("127.0.0.1",P)).close(); time.sleep(.2); return p
        except OSError: pass
    p.kill(); fail("server does not listen")
def end(p,s=signal.SIGTERM):
    p.send_signal(s)
    try: return p.wait(10)
    except subprocess.TimeoutExpired: p.kill(); p.wait(); return None
class Proxy:
    """accepts one connection of the tunnel client program and answers it"""
    def __init__(self): self.l=socket.socket(); self.l.bind(("127.0.0.1",0)); self.l.listen(5); self.port=self.l.getsockname()[1]; self.reqs=[]
    def run(self,args,secs=3):
        p=subprocess.Popen([B+"/tunnelclient/nymea-remoteproxy-tunnelclient","-u","tcp://127.0.0.1:%d"%self.port]+args,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
        self.l.settimeout(secs); c=None; buf=b""; end=time.time()+secs
        try: c,_=self.l.accept()
        except OSError: pass
        while c and time.time()<end and p.poll() is None:
            c.settimeout(.2)
            try: d=c.recv(4096)
            except OSError: continue
            if not d: break
            buf+=d
            while b"\\n" in buf:
                l,buf=buf.split(b"\\n",1); q=json.loads(l); self.reqs.append(q)
                if q["method"].endswith("Hello"): c.sendall(json.dumps({"id":q["id"],"status":"success","params":{"server":"s","name":"n","version":"1","apiVersion":"1"}}).encode()+b"\\n")
            if len(self.reqs)>1: break
        rc=p.poll()
        if rc is None: p.kill(); p.wait()
        return rc,c is not None
def monitor(args,answer=True,secs=5):
    """runs the monitor program; returns its exit code, its requests and its output"""
    path=D+"/m.sock"
    if os.path.exists(path): os.unlink(path)
    l=socket.socket(socket.AF_UNIX); l.bind(path); l.listen(5); l.settimeout(secs); got=[]
    p=subprocess.Popen([B+"/monitor/nymea-remoteproxy-monitor","-s",path]+args,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,stdin=subprocess.DEVNULL)
    rep={"serverName":"s","serverVersion":"1","apiVersion":"1","monitorVersion":"1","tunnelProxyStatistic":{"totalClientCount":0,"serverConnectionsCount":0,"clientConnectionsCount":0,"troughput":0,"transports":{},"tunnelConnections":[]}}
    def serve():
        try: c,_=l.accept()
        except OSError: return
        c.settimeout(secs)
        try:
            d=c.recv(4096); got.append(d)
            if d: c.sendall(json.dumps(rep).encode()+b"\\n")
            time.sleep(1)
        except OSError: pass
    t=threading.Thread(target=serve,daemon=True); t.start()
    try: o,_=p.communicate(timeout=secs)
    except subprocess.TimeoutExpired: p.kill(); o,_=p.communicate(); return None,got,o
    return p.returncode,got,o
'''
def F(x): return {"demo.sh":SH,"demo.py":PRE+x}
M="server/main.cpp"; A="server/remoteproxyserverapplication.cpp"; T="tunnelclient/main.cpp"; N="monitor/main.cpp"
BUGS=[
dict(id="C34-append",prop="C34",needs="a log file that has content of an earlier run",breaks="the log file of earlier runs is overwritten at start",
 edits=[(M,"if (!s_logFile.open(QFile::WriteOnly | QFile::Append)) {","if (!s_logFile.open(QFile::WriteOnly | QFile::Unbuffered)) {")],
 files=F('''
conf("a.log",True); open("a.log","w").write("older line\\n"*50)
p=server(); end(p)
if not open("a.log").read().startswith("older line\\n"*50): fail("older log lost")
''')),
dict(id="C34-nested",prop="C34",needs="a log file below more than one missing directory",breaks="only the last missing directory is created, so that the server does not start",
 edits=[(M,"if (!dir.exists() && !dir.mkpath(dir.absolutePath())) {","if (!dir.exists() && !QDir(fi.path()).mkdir(dir.absolutePath())) {")],
 files=F('''
conf("a.log",False); p=server("-l",D+"/x/y/z.log"); rc=p.poll()
if rc is not None: fail("does not start")
end(p)
if not os.path.getsize("x/y/z.log"): fail("nothing logged")
''')),
dict(id="C34-precedence",prop="C34",needs="a log file in the configuration and another one on the command line",breaks="the log file of the command line is not used",
 edits=[(M,"    if (parser.isSet(logfileOption)) {","    if (parser.isSet(logfileOption) && !configuration->writeLogFile()) {")],
 files=F('''
conf("a.log",True); p=server("-l","b.log"); end(p)
if os.path.exists("a.log") or not os.path.exists("b.log"): fail("wrong log file")
''')),
dict(id="C34-hup",prop="C34",needs="SIGHUP",breaks="SIGHUP leaves the program running without its listeners",
 edits=[(A,'''            qCDebug(dcApplication()) << "Cought SIGHUP quit signal...";
            break;''','''            qCDebug(dcApplication()) << "Cought SIGHUP quit signal...";
            Engine::instance()->stop();
            return;''')],
 files=F('''
conf(); p=server(); rc=end(p,signal.SIGHUP)
if rc!=0: fail("SIGHUP: %r"%rc)
''')),
dict(id="C34-critical",prop="C34",needs="a critical message while the log file is in use",breaks="critical messages are missing in the log file",
 edits=[(M,'''        messageString = QString(" C %1 | %2: %3").arg(timeString).arg(context.category).arg(message);
''','')],
 files={"demo.sh":SH.replace('timeout 120 python3 "$here/demo.py" "$PWD/_build"','''R=$PWD; Q=/usr/include/x86_64-linux-gnu/qt5; cd $DEMO_DIR
sed 's/int main(/int program(/' $R/server/main.cpp > main_.cpp; sed -i 's#"../version.h"#"version.h"#' main_.cpp
g++ -std=gnu++17 -fPIC -w -I. -I$R/server -I$R/libnymea-remoteproxy -I$R/common -I$R/_build -I$R -I$Q -I$Q/QtCore -I$Q/QtNetwork -I$Q/QtWebSockets -include cstdio "$here/demo.cpp" $R/_build/server/remoteproxyserverapplication.o $R/_build/server/moc_remoteproxyserverapplication.o -o demo -L$R/_build/libnymea-remoteproxy -lnymea-remoteproxy -lQt5WebSockets -lQt5Network -lQt5Core && timeout 60 ./demo'''),
 "demo.cpp":'''
// the message handler of the program, with a log file
#include "main_.cpp"
int main()
{
    s_logFile.setFileName("x.log"); if (!s_logFile.open(QFile::WriteOnly | QFile::Append)) return 2;
    QtMsgType l[] = { QtDebugMsg, QtInfoMsg, QtWarningMsg, QtCriticalMsg, QtFatalMsg }; QMessageLogContext c("f", 1, "g", "Application");
    for (int i = 0; i < 5; i++) consoleLogHandler(l[i], c, QString("message %1").arg(i));
    s_logFile.close(); QFile f("x.log"); if (!f.open(QFile::ReadOnly)) return 2; QByteArray a = f.readAll();
    for (int i = 0; i < 5; i++) if (a.count("message " + QByteArray::number(i) + "\\n") != 1) { printf("FAIL: message %d\\n", i); return 1; }
    return 0;
}
'''}),
dict(id="C35-uuid",prop="C35",needs="a UUID option whose value is not a UUID",breaks="registers with the null UUID instead of one of its own",
 edits=[(T,"    if (uuid.isNull()) {","    if (!parser.isSet(uuidOption)) {")],
 files=F('''
x=Proxy(); rc,con=x.run(["-n","me","--uuid","nonsense"])
if not con or len(x.reqs)!=2: fail("does not register")
u=x.reqs[1]["params"]["serverUuid"]
if u.strip("{}").replace("-","").strip("0")=="": fail("registers as "+u)
''')),
dict(id="C35-target",prop="C35",needs="a client whose server UUID is not valid",breaks="the client connects to the proxy and registers for a server that cannot exist",
 edits=[(T,"        if (serverUuid.isNull()) {","        if (parser.value(serverUuidOption).isEmpty()) {")],
 files=F('''
x=Proxy(); rc,con=x.run(["-c","--server-uuid","nonsense"])
if con or rc!=1: fail("connected: %r, exit code %r"%(con,rc))
''')),
dict(id="C35-both",prop="C35",needs="client and random data without the server option",breaks="asked for random data as a client, the program registers as an echo server",
 edits=[(T,"    if (parser.isSet(serverOption) || (!parser.isSet(serverOption) && !parser.isSet(clientOption))) {","    if (parser.isSet(serverOption) || (!parser.isSet(serverOption) && !(parser.isSet(clientOption) && parser.isSet(randomDataOption) == parser.isSet(serverUuidOption) - parser.isSet(insecureOption)) && !parser.isSet(serverUuidOption))) {")],
 files=F('''
x=Proxy(); rc,con=x.run(["-c"])
if con or rc!=1: fail("connected without a server UUID: %r, exit code %r"%(con,rc))
''')),
dict(id="C36-textall",prop="C36",needs="all connections as text",breaks="asks for the active connections only when the report is printed as text",
 edits=[(N,"parser.isSet(jsonOption), parser.isSet(allOption), &application);","parser.isSet(jsonOption), parser.isSet(jsonOption) && parser.isSet(allOption), &application);")],
 files=F('''
rc,got,o=monitor(["-n","-a"])
if rc!=0 or not got or not json.loads(got[0]).get("params",{}).get("printAll"): fail("rc %r requests %r"%(rc,got))
rc,got,o=monitor(["-n"])
if rc!=0 or not got or json.loads(got[0]).get("params",{}).get("printAll"): fail("rc %r requests %r"%(rc,got))
''')),
dict(id="C36-all",prop="C36",needs="all connections as JSON, without the non-interactive option",breaks="a correct command line is refused",
 edits=[(N,"    parser.process(application);","    parser.process(application);\n\n    if (parser.isSet(allOption) && !parser.isSet(noninteractiveOption)) {\n        qWarning() << \"Error: The \\\"all\\\" option is only available with the non-interavtice mode.\";\n        exit(EXIT_FAILURE);\n    }")],
 files=F('''
rc,got,o=monitor(["-j","-a"])
if rc!=0 or not got or not json.loads(got[0]).get("params",{}).get("printAll"): fail("rc %r requests %r"%(rc,got))
''')),
]
# clearer bug for the roles
BUGS=[b for b in BUGS if b["id"]!="C35-both"]
