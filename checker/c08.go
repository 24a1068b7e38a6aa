package main

const connMethod = "every call on a connection or transaction is interpreted for unknown arguments from every abstract state the connection can be in (closed under all calls), against an abstract server that may give any reply or break the transport at any point"

func init() {
	checks["C08"] = checkConn("C08", connMethod, "One obligation per path of a call for outstanding replies, taint and the server's failed state.")
	checks["C09"] = checkConn("C09", connMethod, "One obligation per path of a statement for its rows, metadata and completion.")
	checks["C10"] = checkConn("C10", connMethod, "One obligation per path of a call for the transaction's life cycle.")
	checks["C11"] = checkConn("C11", connMethod, "One obligation per RUN or BEGIN for the settings it carries.")
	checks["C12"] = checkConn("C12", connMethod, "One obligation per path with a failure for the error returned and its innermost cause.")
	checks["C13"] = checkConn("C13", connMethod, "One obligation per send, receive and path for the lock of the connection; shared fields written under it are only accessed under it.")
	checks["C14"] = checkConn("C14", connMethod, "One obligation per path of Close and of a connection attempt for the socket.")
	checks["C17"] = checkConn("C17", connMethod, "One obligation per dial, read and write for its deadline and per transport error for how it is reported.")
}
