// A C program's view of the interface: the calls, the buffers and the lengths of its header.
// CALL_<function> is a call with the arguments in the order of the parameters' names in the header; lib/lse_build.py writes calls.h.
#include <sys/types.h>
#include "credential.h"
#include "calls.h"

uint64_t c_length(uint32_t which) {
  const uint64_t all[] = { LENGTH_SEED, LENGTH_SYSTEM_PARAMETERS, LENGTH_ISSUER, LENGTH_ISSUER_PARAMETERS, LENGTH_ISSUER_KEYPAIR, LENGTH_USER,
                           LENGTH_CREDENTIAL_ISSUANCE, LENGTH_CREDENTIAL_PRESENTATION, LENGTH_VERIFIED_CREDENTIAL,
                           LENGTH_ROSTER_ENTRY_COMMITMENT, LENGTH_ROSTER_ENTRY_COMMITMENT_SANS_OPENING };
  return all[which];
}
static void give(buf_t r, uint64_t* len, const uint8_t** ptr) { *len = r.len; *ptr = r.ptr; }

#define OUT uint64_t* len, const uint8_t** ptr
void c_system_parameters_create(const uint8_t* seed, OUT) {
  give(CALL_system_parameters_create, len, ptr);
}
void c_issuer_create(const uint8_t* system_parameters, uint64_t system_parameters_length, const uint8_t* seed, OUT) {
  give(CALL_issuer_create, len, ptr);
}
void c_issuer_new(const uint8_t* system_parameters, uint64_t system_parameters_length, const uint8_t* keypair, uint64_t keypair_length, OUT) {
  give(CALL_issuer_new, len, ptr);
}
void c_issuer_get_issuer_parameters(const uint8_t* issuer, uint64_t issuer_length, OUT) {
  give(CALL_issuer_get_issuer_parameters, len, ptr);
}
void c_issuer_issue(const uint8_t* issuer, uint64_t issuer_length, const uint8_t* phone_number, uint64_t phone_number_length, const uint8_t* seed, OUT) {
  give(CALL_issuer_issue, len, ptr);
}
void c_issuer_verify(const uint8_t* issuer, uint64_t issuer_length, const uint8_t* presentation, uint64_t presentation_length, OUT) {
  give(CALL_issuer_verify, len, ptr);
}
void c_issuer_verify_roster_membership(const uint8_t* issuer, uint64_t issuer_length, const uint8_t* verified_credential, uint64_t verified_credential_length, OUT) {
  give(CALL_issuer_verify_roster_membership, len, ptr);
}
void c_user_obtain_finish(const uint8_t* phone_number, uint64_t phone_number_length, const uint8_t* system_parameters, uint64_t system_parameters_length, const uint8_t* issuer_parameters, uint64_t issuer_parameters_length, const uint8_t* issuance, uint64_t issuance_length, OUT) {
  give(CALL_user_obtain_finish, len, ptr);
}
void c_user_show(const uint8_t* user, uint64_t user_length, const uint8_t* roster_entry_commitment, uint64_t roster_entry_commitment_length, const uint8_t* seed, OUT) {
  give(CALL_user_show, len, ptr);
}
void c_roster_entry_commitment_create(const uint8_t* phone_number, uint64_t phone_number_length, const uint8_t* system_parameters, uint64_t system_parameters_length, const uint8_t* seed, OUT) {
  give(CALL_roster_entry_commitment_create, len, ptr);
}
void c_roster_entry_commitment_remove_opening(const uint8_t* roster_entry_commitment, uint64_t roster_entry_commitment_length, OUT) {
  give(CALL_roster_entry_commitment_remove_opening, len, ptr);
}
void c_roster_entry_commitment_open(const uint8_t* roster_entry_commitment, uint64_t roster_entry_commitment_length, const uint8_t* phone_number, uint64_t phone_number_length, const uint8_t* system_parameters, uint64_t system_parameters_length, OUT) {
  give(CALL_roster_entry_commitment_open, len, ptr);
}
