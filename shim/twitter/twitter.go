// Package twitter models a Twitter account: its direct messages and its
// message stream are up to the harness.
package twitter

import (
	"errors"

	"github.com/coniks-sys/coniks-go/internal/verifsym/oauth1"
)

// Response stands for an HTTP response.
type Response struct {
	StatusCode int
	Status     string
}

// The account and what happened to it.
var (
	Account      = "bot"         // whose credentials are used
	VerifyErr    error           // credentials refused
	NewErr       error           // sending fails
	DestroyErr   error           // deleting fails
	StreamErr    error           // no stream
	Old          []DirectMessage // received earlier
	Sent         []DirectMessageNewParams
	Destroyed    []int64
	Streams      []*Stream
	nextID       int64 = 1000
	ErrForbidden       = errors.New("twitter: forbidden")
)

// Client is a client.
type Client struct {
	Accounts       *AccountService
	DirectMessages *DirectMessageService
	Streams        *StreamService
}

// AccountService is the account.
type AccountService struct{}

// DirectMessageService are the direct messages.
type DirectMessageService struct{}

// StreamService gives streams.
type StreamService struct{}

// NewClient returns a client.
func NewClient(c *oauth1.HTTPClient) *Client {
	return &Client{&AccountService{}, &DirectMessageService{}, &StreamService{}}
}

// Bool returns a pointer.
func Bool(v bool) *bool { return &v }

// Float returns a pointer.
func Float(v float64) *float64 { return &v }

// User is an account.
type User struct {
	ID         int64
	IDStr      string
	Name       string
	ScreenName string
}

// AccountVerifyParams are parameters.
type AccountVerifyParams struct{ IncludeEntities, SkipStatus, IncludeEmail *bool }

// VerifyCredentials returns the account.
func (s *AccountService) VerifyCredentials(params *AccountVerifyParams) (*User, *Response, error) {
	if VerifyErr != nil {
		return nil, &Response{StatusCode: 401}, VerifyErr
	}
	return &User{ScreenName: Account}, &Response{StatusCode: 200}, nil
}

// DirectMessage is a direct message.
type DirectMessage struct {
	CreatedAt           string
	ID                  int64
	IDStr               string
	Recipient           *User
	RecipientID         int64
	RecipientScreenName string
	Sender              *User
	SenderID            int64
	SenderScreenName    string
	Text                string
}

// DirectMessageGetParams are parameters.
type DirectMessageGetParams struct {
	SinceID, MaxID              int64
	Count                       int
	IncludeEntities, SkipStatus *bool
}

// DirectMessageNewParams are parameters.
type DirectMessageNewParams struct {
	UserID           int64
	ScreenName, Text string
}

// DirectMessageDestroyParams are parameters.
type DirectMessageDestroyParams struct {
	ID              int64
	IncludeEntities *bool
}

// Get returns the messages received earlier.
func (s *DirectMessageService) Get(params *DirectMessageGetParams) ([]DirectMessage, *Response, error) {
	return append([]DirectMessage(nil), Old...), &Response{StatusCode: 200}, nil
}

// New sends a message.
func (s *DirectMessageService) New(params *DirectMessageNewParams) (*DirectMessage, *Response, error) {
	if NewErr != nil {
		return new(DirectMessage), &Response{StatusCode: 403}, NewErr
	}
	Sent = append(Sent, *params)
	nextID++
	return &DirectMessage{ID: nextID, SenderScreenName: Account, RecipientScreenName: params.ScreenName, Text: params.Text}, &Response{StatusCode: 200}, nil
}

// Destroy deletes a message.
func (s *DirectMessageService) Destroy(id int64, params *DirectMessageDestroyParams) (*DirectMessage, *Response, error) {
	if DestroyErr != nil {
		return new(DirectMessage), &Response{StatusCode: 403}, DestroyErr
	}
	Destroyed = append(Destroyed, id)
	for i := range Old {
		if Old[i].ID == id {
			Old = append(Old[:i:i], Old[i+1:]...)
			break
		}
	}
	return &DirectMessage{ID: id}, &Response{StatusCode: 200}, nil
}

// StreamUserParams are parameters.
type StreamUserParams struct {
	FilterLevel   string
	Language      []string
	Locations     []string
	Replies       string
	StallWarnings *bool
	Track         []string
	With          string
}

// Stream is a message stream.
type Stream struct {
	Messages chan interface{}
	Stops    int
}

// User opens the account's stream.
func (s *StreamService) User(params *StreamUserParams) (*Stream, error) {
	if StreamErr != nil {
		return nil, StreamErr
	}
	st := &Stream{Messages: make(chan interface{})}
	Streams = append(Streams, st)
	return st, nil
}

// Stop ends the stream.
func (s *Stream) Stop() {
	s.Stops++
	if s.Stops == 1 {
		close(s.Messages)
	}
}

// Tweet is a tweet.
type Tweet struct{ Text string }

// Demux handles messages.
type Demux interface {
	Handle(message interface{})
	HandleChan(messages <-chan interface{})
}

// SwitchDemux dispatches messages by type.
type SwitchDemux struct {
	All   func(message interface{})
	Tweet func(tweet *Tweet)
	DM    func(dm *DirectMessage)
	Other func(message interface{})
}

// NewSwitchDemux returns a demultiplexer that ignores everything.
func NewSwitchDemux() SwitchDemux {
	return SwitchDemux{
		All:   func(message interface{}) {},
		Tweet: func(tweet *Tweet) {},
		DM:    func(dm *DirectMessage) {},
		Other: func(message interface{}) {},
	}
}

// Handle dispatches one message.
func (d SwitchDemux) Handle(message interface{}) {
	d.All(message)
	switch msg := message.(type) {
	case *Tweet:
		d.Tweet(msg)
	case *DirectMessage:
		d.DM(msg)
	default:
		d.Other(msg)
	}
}

// HandleChan dispatches every message of a stream.
func (d SwitchDemux) HandleChan(messages <-chan interface{}) {
	for message := range messages {
		d.Handle(message)
	}
}
