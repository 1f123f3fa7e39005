package main

import (
	"fmt"
	"os"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

type obj = map[string]any

// fail reports what is wrong and ends the demonstration with status 1.
func fail(format string, args ...any) {
	fmt.Printf("BROKEN: "+format+"\n", args...)
	os.Exit(1)
}

func expect(ok bool, format string, args ...any) {
	if !ok {
		fail(format, args...)
	}
}

// catch runs f and reports whether it panicked.
func catch(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("panic:", r)
			panicked = true
		}
	}()
	f()
	return
}

func session(id uint64) *wampproto.SessionDetails {
	return wampproto.NewSessionDetails(id, "realm1", fmt.Sprintf("auth%d", id), fmt.Sprintf("role%d", id),
		"anonymous", false, nil, nil)
}

func newDealer(ids ...uint64) *wampproto.Dealer {
	d := wampproto.NewDealer()
	for _, id := range ids {
		if err := d.AddSession(session(id)); err != nil {
			fail("cannot add session %d: %v", id, err)
		}
	}
	return d
}

func newBroker(ids ...uint64) *wampproto.Broker {
	b := wampproto.NewBroker()
	for _, id := range ids {
		if err := b.AddSession(session(id)); err != nil {
			fail("cannot add session %d: %v", id, err)
		}
	}
	return b
}

func register(d *wampproto.Dealer, sid, req uint64, options obj, proc string) uint64 {
	r, err := d.ReceiveMessage(sid, messages.NewRegister(req, options, proc))
	if err != nil {
		fail("register: %v", err)
	}
	m, ok := r.Message.(*messages.Registered)
	if !ok {
		fail("register %s by %d: got %T", proc, sid, r.Message)
	}
	return m.RegistrationID()
}

func unregister(d *wampproto.Dealer, sid, req, id uint64) {
	if _, err := d.ReceiveMessage(sid, messages.NewUnregister(req, id)); err != nil {
		fail("unregister: %v", err)
	}
}

// invoke makes a call and returns the invocation and its callee, or nil if the call was refused.
func invoke(d *wampproto.Dealer, sid, req uint64, options obj, proc string, args ...any) (*messages.Invocation, uint64) {
	r, err := d.ReceiveMessage(sid, messages.NewCall(req, options, proc, args, nil))
	if err != nil {
		fmt.Println("call:", err)
		return nil, 0
	}
	m, ok := r.Message.(*messages.Invocation)
	if !ok {
		fmt.Printf("call: got %T\n", r.Message)
		return nil, 0
	}
	return m, r.Recipient
}

func yield(d *wampproto.Dealer, sid, inv uint64, options obj, args ...any) (*messages.Result, uint64, error) {
	r, err := d.ReceiveMessage(sid, messages.NewYield(inv, options, args, nil))
	if err != nil {
		return nil, 0, err
	}
	m, _ := r.Message.(*messages.Result)
	return m, r.Recipient, nil
}

func subscribe(b *wampproto.Broker, sid, req uint64, options obj, topic string) uint64 {
	r, err := b.ReceiveMessage(sid, messages.NewSubscribe(req, options, topic))
	if err != nil {
		fail("subscribe: %v", err)
	}
	return r.Message.(*messages.Subscribed).SubscriptionID()
}

func unsubscribe(b *wampproto.Broker, sid, req, id uint64) {
	if _, err := b.ReceiveMessage(sid, messages.NewUnsubscribe(req, id)); err != nil {
		fail("unsubscribe: %v", err)
	}
}

func publish(b *wampproto.Broker, sid, req uint64, options obj, topic string, args ...any) *wampproto.Publication {
	p, err := b.ReceivePublish(sid, messages.NewPublish(req, options, topic, args, nil))
	if err != nil {
		fail("publish: %v", err)
	}
	return p
}

func gets(p *wampproto.Publication, sid uint64) int {
	n := 0
	for _, r := range p.Recipients {
		if r == sid {
			n++
		}
	}
	return n
}

func all() map[string]serializers.Serializer {
	return map[string]serializers.Serializer{"json": &serializers.JSONSerializer{}, "cbor": &serializers.CBORSerializer{},
		"msgpack": &serializers.MsgPackSerializer{}}
}
