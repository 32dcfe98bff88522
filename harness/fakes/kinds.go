//go:build go1.22

package fakes

import (
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
)

// MessageKind is one kind of protocol message: its encoder and decoder.
type MessageKind struct {
	Name   string
	Encode interface{}
	Decode interface{}
}

// MessageKinds lists every kind of message.
var MessageKinds = []MessageKind{
	{"InvalidMessageResponse", fcrmessages.EncodeInvalidMessageResponse, fcrmessages.DecodeInvalidMessageResponse},
	{"ProtocolChangeRequest", fcrmessages.EncodeProtocolChangeRequest, fcrmessages.DecodeProtocolChangeRequest},
	{"ProtocolChangeResponse", fcrmessages.EncodeProtocolChangeResponse, fcrmessages.DecodeProtocolChangeResponse},
	{"ClientDHTDiscoverOfferRequest", fcrmessages.EncodeClientDHTDiscoverOfferRequest, fcrmessages.DecodeClientDHTDiscoverOfferRequest},
	{"ClientDHTDiscoverOfferResponse", fcrmessages.EncodeClientDHTDiscoverOfferResponse, fcrmessages.DecodeClientDHTDiscoverOfferResponse},
	{"ClientDHTDiscoverRequest", fcrmessages.EncodeClientDHTDiscoverRequest, fcrmessages.DecodeClientDHTDiscoverRequest},
	{"ClientDHTDiscoverRequestV2", fcrmessages.EncodeClientDHTDiscoverRequestV2, fcrmessages.DecodeClientDHTDiscoverRequestV2},
	{"ClientDHTDiscoverResponse", fcrmessages.EncodeClientDHTDiscoverResponse, fcrmessages.DecodeClientDHTDiscoverResponse},
	{"ClientDHTDiscoverResponseV2", fcrmessages.EncodeClientDHTDiscoverResponseV2, fcrmessages.DecodeClientDHTDiscoverResponseV2},
	{"ClientDHTOfferAckRequest", fcrmessages.EncodeClientDHTOfferAckRequest, fcrmessages.DecodeClientDHTOfferAckRequest},
	{"ClientDHTOfferAckResponse", fcrmessages.EncodeClientDHTOfferAckResponse, fcrmessages.DecodeClientDHTOfferAckResponse},
	{"ClientEstablishmentRequest", fcrmessages.EncodeClientEstablishmentRequest, fcrmessages.DecodeClientEstablishmentRequest},
	{"ClientEstablishmentResponse", fcrmessages.EncodeClientEstablishmentResponse, fcrmessages.DecodeClientEstablishmentResponse},
	{"ClientStandardDiscoverOfferRequest", fcrmessages.EncodeClientStandardDiscoverOfferRequest, fcrmessages.DecodeClientStandardDiscoverOfferRequest},
	{"ClientStandardDiscoverOfferResponse", fcrmessages.EncodeClientStandardDiscoverOfferResponse, fcrmessages.DecodeClientStandardDiscoverOfferResponse},
	{"ClientStandardDiscoverRequest", fcrmessages.EncodeClientStandardDiscoverRequest, fcrmessages.DecodeClientStandardDiscoverRequest},
	{"ClientStandardDiscoverRequestV2", fcrmessages.EncodeClientStandardDiscoverRequestV2, fcrmessages.DecodeClientStandardDiscoverRequestV2},
	{"ClientStandardDiscoverResponse", fcrmessages.EncodeClientStandardDiscoverResponse, fcrmessages.DecodeClientStandardDiscoverResponse},
	{"ClientStandardDiscoverResponseV2", fcrmessages.EncodeClientStandardDiscoverResponseV2, fcrmessages.DecodeClientStandardDiscoverResponseV2},
	{"GatewayDHTDiscoverOfferRequest", fcrmessages.EncodeGatewayDHTDiscoverOfferRequest, fcrmessages.DecodeGatewayDHTDiscoverOfferRequest},
	{"GatewayDHTDiscoverOfferResponse", fcrmessages.EncodeGatewayDHTDiscoverOfferResponse, fcrmessages.DecodeGatewayDHTDiscoverOfferResponse},
	{"GatewayDHTDiscoverRequest", fcrmessages.EncodeGatewayDHTDiscoverRequest, fcrmessages.DecodeGatewayDHTDiscoverRequest},
	{"GatewayDHTDiscoverRequestV2", fcrmessages.EncodeGatewayDHTDiscoverRequestV2, fcrmessages.DecodeGatewayDHTDiscoverRequestV2},
	{"GatewayDHTDiscoverResponse", fcrmessages.EncodeGatewayDHTDiscoverResponse, fcrmessages.DecodeGatewayDHTDiscoverResponse},
	{"GatewayDHTDiscoverResponseV2", fcrmessages.EncodeGatewayDHTDiscoverResponseV2, fcrmessages.DecodeGatewayDHTDiscoverResponseV2},
	{"GatewayListDHTOfferAck", fcrmessages.EncodeGatewayListDHTOfferAck, fcrmessages.DecodeGatewayListDHTOfferAck},
	{"GatewayListDHTOfferRequest", fcrmessages.EncodeGatewayListDHTOfferRequest, fcrmessages.DecodeGatewayListDHTOfferRequest},
	{"GatewayListDHTOfferResponse", fcrmessages.EncodeGatewayListDHTOfferResponse, fcrmessages.DecodeGatewayListDHTOfferResponse},
	{"GatewayNotifyProviderGroupCIDOfferSupportRequest", fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest, fcrmessages.DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest},
	{"GatewayNotifyProviderGroupCIDOfferSupportResponse", fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportResponse, fcrmessages.DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse},
	{"GatewayPingRequest", fcrmessages.EncodeGatewayPingRequest, fcrmessages.DecodeGatewayPingRequest},
	{"GatewayPingResponse", fcrmessages.EncodeGatewayPingResponse, fcrmessages.DecodeGatewayPingResponse},
	{"GatewayAdminForceRefreshRequest", fcrmessages.EncodeGatewayAdminForceRefreshRequest, fcrmessages.DecodeGatewayAdminForceRefreshRequest},
	{"GatewayAdminForceRefreshResponse", fcrmessages.EncodeGatewayAdminForceRefreshResponse, fcrmessages.DecodeGatewayAdminForceRefreshResponse},
	{"GatewayAdminGetReputationRequest", fcrmessages.EncodeGatewayAdminGetReputationRequest, fcrmessages.DecodeGatewayAdminGetReputationRequest},
	{"GatewayAdminGetReputationResponse", fcrmessages.EncodeGatewayAdminGetReputationResponse, fcrmessages.DecodeGatewayAdminGetReputationResponse},
	{"GatewayAdminInitialiseKeyRequest", fcrmessages.EncodeGatewayAdminInitialiseKeyRequest, fcrmessages.DecodeGatewayAdminInitialiseKeyRequest},
	{"GatewayAdminInitialiseKeyRequestV2", fcrmessages.EncodeGatewayAdminInitialiseKeyRequestV2, fcrmessages.DecodeGatewayAdminInitialiseKeyRequestV2},
	{"GatewayAdminInitialiseKeyResponse", fcrmessages.EncodeGatewayAdminInitialiseKeyResponse, fcrmessages.DecodeGatewayAdminInitialiseKeyResponse},
	{"GatewayAdminListDHTOfferRequest", fcrmessages.EncodeGatewayAdminListDHTOfferRequest, fcrmessages.DecodeGatewayAdminListDHTOfferRequest},
	{"GatewayAdminListDHTOfferResponse", fcrmessages.EncodeGatewayAdminListDHTOfferResponse, fcrmessages.DecodeGatewayAdminListDHTOfferResponse},
	{"GatewayAdminSetReputationRequest", fcrmessages.EncodeGatewayAdminSetReputationRequest, fcrmessages.DecodeGatewayAdminSetReputationRequest},
	{"GatewayAdminSetReputationResponse", fcrmessages.EncodeGatewayAdminSetReputationResponse, fcrmessages.DecodeGatewayAdminSetReputationResponse},
	{"UpdateGatewayGroupCIDOfferSupportRequest", fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportRequest, fcrmessages.DecodeUpdateGatewayGroupCIDOfferSupportRequest},
	{"UpdateGatewayGroupCIDOfferSupportResponse", fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportResponse, fcrmessages.DecodeUpdateGatewayGroupCIDOfferSupportResponse},
	{"ProviderPublishDHTOfferRequest", fcrmessages.EncodeProviderPublishDHTOfferRequest, fcrmessages.DecodeProviderPublishDHTOfferRequest},
	{"ProviderPublishDHTOfferResponse", fcrmessages.EncodeProviderPublishDHTOfferResponse, fcrmessages.DecodeProviderPublishDHTOfferResponse},
	{"ProviderPublishGroupOfferRequest", fcrmessages.EncodeProviderPublishGroupOfferRequest, fcrmessages.DecodeProviderPublishGroupOfferRequest},
	{"ProviderPublishGroupOfferResponse", fcrmessages.EncodeProviderPublishGroupOfferResponse, fcrmessages.DecodeProviderPublishGroupOfferResponse},
	{"ProviderAdminForceRefreshRequest", fcrmessages.EncodeProviderAdminForceRefreshRequest, fcrmessages.DecodeProviderAdminForceRefreshRequest},
	{"ProviderAdminForceRefreshResponse", fcrmessages.EncodeProviderAdminForceRefreshResponse, fcrmessages.DecodeProviderAdminForceRefreshResponse},
	{"ProviderAdminGetPublishedOfferRequest", fcrmessages.EncodeProviderAdminGetPublishedOfferRequest, fcrmessages.DecodeProviderAdminGetPublishedOfferRequest},
	{"ProviderAdminGetPublishedOfferResponse", fcrmessages.EncodeProviderAdminGetPublishedOfferResponse, fcrmessages.DecodeProviderAdminGetPublishedOfferResponse},
	{"ProviderAdminInitialiseKeyRequest", fcrmessages.EncodeProviderAdminInitialiseKeyRequest, fcrmessages.DecodeProviderAdminInitialiseKeyRequest},
	{"ProviderAdminInitialiseKeyRequestV2", fcrmessages.EncodeProviderAdminInitialiseKeyRequestV2, fcrmessages.DecodeProviderAdminInitialiseKeyRequestV2},
	{"ProviderAdminInitialiseKeyResponse", fcrmessages.EncodeProviderAdminInitialiseKeyResponse, fcrmessages.DecodeProviderAdminInitialiseKeyResponse},
	{"ProviderAdminPublishDHTOfferRequest", fcrmessages.EncodeProviderAdminPublishDHTOfferRequest, fcrmessages.DecodeProviderAdminPublishDHTOfferRequest},
	{"ProviderAdminPublishDHTOfferResponse", fcrmessages.EncodeProviderAdminPublishDHTOfferResponse, fcrmessages.DecodeProviderAdminPublishDHTOfferResponse},
	{"ProviderAdminPublishGroupOfferRequest", fcrmessages.EncodeProviderAdminPublishGroupOfferRequest, fcrmessages.DecodeProviderAdminPublishGroupOfferRequest},
	{"ProviderAdminPublishGroupOfferResponse", fcrmessages.EncodeProviderAdminPublishGroupOfferResponse, fcrmessages.DecodeProviderAdminPublishGroupOfferResponse},
}
