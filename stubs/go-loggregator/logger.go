package loggregator

// Logger is the minimal interface for logging.
type Logger interface {
	Printf(string, ...interface{})
	Panicf(string, ...interface{})
}
