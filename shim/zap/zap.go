// Package zap models the logging library: nothing is written anywhere.
package zap

import "go.uber.org/zap/zapcore"

const (
	DebugLevel  = zapcore.DebugLevel
	InfoLevel   = zapcore.InfoLevel
	WarnLevel   = zapcore.WarnLevel
	ErrorLevel  = zapcore.ErrorLevel
	DPanicLevel = zapcore.DPanicLevel
	PanicLevel  = zapcore.PanicLevel
	FatalLevel  = zapcore.FatalLevel
)

type AtomicLevel struct{ l *zapcore.Level }

func NewAtomicLevel() AtomicLevel                  { return AtomicLevel{new(zapcore.Level)} }
func NewAtomicLevelAt(l zapcore.Level) AtomicLevel { return AtomicLevel{&l} }
func (a AtomicLevel) SetLevel(l zapcore.Level)     { *a.l = l }
func (a AtomicLevel) Level() zapcore.Level         { return *a.l }
func (a AtomicLevel) Enabled(l zapcore.Level) bool { return l >= *a.l }

type SamplingConfig struct{ Initial, Thereafter int }

type Option interface{}

func AddCaller() Option                  { return nil }
func AddCallerSkip(skip int) Option      { return nil }
func AddStacktrace(l interface{}) Option { return nil }

type Config struct {
	Level             AtomicLevel
	Development       bool
	DisableCaller     bool
	DisableStacktrace bool
	Sampling          *SamplingConfig
	Encoding          string
	EncoderConfig     zapcore.EncoderConfig
	OutputPaths       []string
	ErrorOutputPaths  []string
	InitialFields     map[string]interface{}
}

// BuildErr is what building a logger reports.
var BuildErr error

func (c Config) Build(opts ...Option) (*Logger, error) {
	if BuildErr != nil {
		return nil, BuildErr
	}
	return &Logger{}, nil
}

type Logger struct{}

func NewNop() *Logger                             { return &Logger{} }
func (l *Logger) Sugar() *SugaredLogger           { return &SugaredLogger{} }
func (l *Logger) Sync() error                     { return nil }
func (l *Logger) WithOptions(o ...Option) *Logger { return l }

type SugaredLogger struct{}

// Fatal is what ends the process.
var Fatal = func() { panic("zap: fatal") }

func (s *SugaredLogger) Desugar() *Logger                        { return &Logger{} }
func (s *SugaredLogger) Named(n string) *SugaredLogger           { return s }
func (s *SugaredLogger) With(args ...interface{}) *SugaredLogger { return s }
func (s *SugaredLogger) Debug(args ...interface{})               {}
func (s *SugaredLogger) Info(args ...interface{})                {}
func (s *SugaredLogger) Warn(args ...interface{})                {}
func (s *SugaredLogger) Error(args ...interface{})               {}
func (s *SugaredLogger) Panic(args ...interface{})               { panic("zap: panic") }
func (s *SugaredLogger) Fatal(args ...interface{})               { Fatal() }
func (s *SugaredLogger) Debugf(f string, args ...interface{})    {}
func (s *SugaredLogger) Infof(f string, args ...interface{})     {}
func (s *SugaredLogger) Warnf(f string, args ...interface{})     {}
func (s *SugaredLogger) Errorf(f string, args ...interface{})    {}
func (s *SugaredLogger) Panicf(f string, args ...interface{})    { panic("zap: panic") }
func (s *SugaredLogger) Fatalf(f string, args ...interface{})    { Fatal() }
func (s *SugaredLogger) Debugw(msg string, kv ...interface{})    {}
func (s *SugaredLogger) Infow(msg string, kv ...interface{})     {}
func (s *SugaredLogger) Warnw(msg string, kv ...interface{})     {}
func (s *SugaredLogger) Errorw(msg string, kv ...interface{})    {}
func (s *SugaredLogger) Panicw(msg string, kv ...interface{})    { panic("zap: panic") }
func (s *SugaredLogger) Fatalw(msg string, kv ...interface{})    { Fatal() }
func (s *SugaredLogger) Sync() error                             { return nil }
