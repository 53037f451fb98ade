#!/usr/bin/env python3
"""writes known_findings.json; the commits of the fixes are looked up in /repo by their subject"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
H = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
FIXED = [
 ("P03", "fix: add_block keeps the blocks sorted so that every overlap is found", "blocks added out of order could overlap an existing block"),
 ("P02", "fix: a multiple write with missing values writes nothing", "a write of several values with a short payload wrote a part of them"),
 ("P01", "fix: mask write on a signed slave stores a signed value", "a mask write could leave a value that a signed slave cannot read back"),
 ("P01", "fix: function 23 writes before it reads", "function 23 returned the values from before its own write"),
 ("P08", "fix: RtuOverTcpMaster does not loop for ever on a closed connection", "execute never returned when the peer closed the connection"),
 ("P08", "fix: RtuOverTcpMaster raises the modbus error of an exception response", "an exception response ended in a timeout"),
 ("P15", "fix: a broadcast reaches every slave and is never answered", "a broadcast refused by one slave did not reach the others and was answered"),
 ("P22", "fix: Server.stop joins the thread it found alive", "stop joined a thread that was not started when the server thread ended by itself"),
 ("P13", "fix: an error on the server socket or in a hook does not stop the TcpServer", "one error while accepting, or in a hook, ended the service"),
 ("P13", "fix: a TCP server ended when a hook closed the connection it was called for", "a hook (on_connect, say) which closed the connection of a client ended the server: nobody was answered any more"),
 ("P30", "fix: a TCP master keeps no socket when the connection could not be made", "close() of a master whose connection had failed left its socket open as long as the master existed"),
 ("P20", "fix: the hooks of Server can replace a request or response by an empty one", "an empty replacement returned by Server.before_handle_request or after_handle_request was ignored"),
 ("P28", "fix: RtuMaster can be opened again after its port was closed by somebody else", "close() of a master whose port had been closed by somebody else left the master marked open: it never opened the port again"),
 ("P22", "fix: RtuServer.stop does not hang when the port could not be opened again", "a read failure followed by a failing open left the port without timeout: a server stopped before its next loop waited for a byte for ever"),
 ("P21", "fix: LogitHandler sends records which are not ascii", "a log record which is not ascii (thread name, text of an error) raised UnicodeEncodeError in the master or server which logged it"),
 ("P22", "fix: a server can be started again when its on_exception hook raised an error", "start created no thread after the one whose on_exception hook had raised ended"),
 ("P20", "fix: a handle_request hook can raise a ModbusError", "a ModbusError raised by the hook became an UnboundLocalError"),
 ("P05", "fix: a master refuses the response of another function", "a response with another function code was returned as data"),
 ("P05", "fix: the default data_format of diagnostic includes the sub-function", "every diagnostic reply was refused"),
 ("P05", "fix: a master checks the length of every file record sub-response", "file records with wrong sub-response lengths were returned"),
 ("P19", "fix: hooks do not run under the global lock of the hooks", "deadlock between a hook which uses a slave and a request on it"),
 ("P25", "fix: remove_all_blocks keeps the memory shared between tables", "after remove_all_blocks, tables which shared their storage did not share it any more"),
 ("P25", "fix: a request on a table the slave does not have is refused with an exception", "a request on a table missing in the memory of the slave was answered with two unframed bytes"),
 ("P26", "fix: PyModbusClientTCP works with its default arguments", "the optional arguments could not be left out"),
 ("P26", "fix: PyModbusClientTCP returns the values it has read", "the read methods returned nothing usable"),
 ("P23", "fix: the RPC interface of the simulator works with Python 3", "no RPC command was answered"),
 ("P23", "fix: an unknown command which begins with quit does not stop the simulator", "any command which begins with quit ended the simulator"),
 ("P23", "fix: SimulatorRpcClient.get_values returns an empty tuple for no value", "get_values of no value raised ValueError"),
 ("P23", "fix: SimulatorRpcClient reads the whole answer", "long answers were cut"),
 ("P23", "fix: uninstall_hook of the simulator removes only the given function", "the name of the function was ignored"),
 ("P23", "fix: the answers of the simulator go to the interface which sent the command", "an RPC answer could be printed on the console and the other way round"),
 ("P13", "fix: a TCP server ended when a client opened more connections than select can watch", "with more than 1000 open connections select raised ValueError and the server ended for everybody"),
]
FINDINGS = [
 {"property": "P23", "signature": "long-command",
  "what": "a simulator RPC command of more than 1024 bytes is cut after 1024 bytes (a set_values of many values then writes some of them, the last one possibly cut); the protocol has no end mark, so reading the rest needs a change of the protocol",
  "where": "modbus_tk/simulator.py RpcHandler.handle, self.request.recv(1024)",
  "case": "SimulatorRpcClient.set_values(1, 'a', 0, [12345] * 300)"},
 {"property": "P23", "signature": "slow-command",
  "what": "a (custom) command which takes longer than the interface waits (2 s on the console, 5 s over RPC) ends the console thread with queue.Empty, and its late answer is given to the next command",
  "where": "modbus_tk/simulator.py ConsoleInterface.run and RpcHandler.handle, get(timeout=...)",
  "case": "a command added with Simulator.add_command which sleeps 2.6 s, typed on the console, then has_slave 9 over RPC"},
 {"property": "P13", "signature": "bare-error-reply",
  "what": "a request whose PDU cannot be decoded (too short for its function, or MBAP length field 0) and which reaches Databank.handle_request is answered with the two bytes [function|0x80, 4] without any MBAP header",
  "where": "modbus_tk/modbus.py Databank.handle_request, last lines; functest testInvalidRequest documents the unframed return value",
  "case": "000100000006011000000002 sent to a TcpServer with slave 1 is answered 9004"},
 {"property": "P13", "signature": "slow-drip",
  "what": "a client which sends the bytes of one request one by one, each within the 1 s the server waits for the next byte, keeps the (mono-threaded) server from answering all the other clients for as long as the frame lasts; a limit for the whole frame would also drop slow but correct clients, so it is recorded and not repaired",
  "where": "modbus_tk/modbus_tcp.py TcpServer._do_run: sock.settimeout(1.0) applies to every recv(1)",
  "case": "header 0001000000fa42 followed by a byte every 0.4 s; another client connects and reads a register: answered when the dripping client stops"},
 {"property": "P20", "signature": "function-hook-return-ignored",
  "what": "the docstring of install_hook says that the hooks modbus.Slave.handle_<function>_request return a modified response, but a value they return is never used (only modbus.Slave.handle_request replaces the response); whether the value should be a full PDU or the part after the function code is not documented, so it is recorded and not repaired",
  "where": "modbus_tk/modbus.py Slave._read_coils ... _mask_write_register: call_hooks(...) without using its result",
  "case": "install modbus.Slave.handle_read_coils_request returning 0x0101, read 1 coil which is 0: the master gets (0,)"},
]
fixed = []
for pid, subj, what in FIXED:
    fixed.append("fixed: property=%s %s %s" % (pid, H[subj], what))
assert len(fixed) == len([s for s in H if s.startswith("fix:")])
json.dump({"findings": FINDINGS, "fixed": fixed}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
