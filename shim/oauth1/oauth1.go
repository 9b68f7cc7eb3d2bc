// Package oauth1 models the credentials of an account.
package oauth1

import "context"

// NoContext is the background context.
var NoContext = context.Background()

// HTTPClient stands for an authorised HTTP client.
type HTTPClient struct {
	Config *Config
	Token  *Token
}

// Config are an application's credentials.
type Config struct{ ConsumerKey, ConsumerSecret, CallbackURL, Realm string }

// Token are an account's credentials.
type Token struct{ Token, TokenSecret string }

// NewConfig returns a configuration.
func NewConfig(key, secret string) *Config { return &Config{ConsumerKey: key, ConsumerSecret: secret} }

// NewToken returns a token.
func NewToken(token, secret string) *Token { return &Token{token, secret} }

// Client returns an authorised client.
func (c *Config) Client(ctx context.Context, t *Token) *HTTPClient { return &HTTPClient{c, t} }

// NewClient returns an authorised client.
func NewClient(ctx context.Context, c *Config, t *Token) *HTTPClient { return &HTTPClient{c, t} }
