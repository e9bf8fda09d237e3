package props

// C05 is registered in outbound.go, next to the sending machinery.
