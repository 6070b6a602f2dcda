INIT Init
NEXT Next
INVARIANTS InfoSafe QuoteSafe FmtSafe RawStops Emit
CHECK_DEADLOCK FALSE
