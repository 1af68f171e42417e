"""Reproducers of the recorded findings (known_findings.json), run against the code under test."""
import os, shutil, subprocess, tempfile
from . import build as B, gencheck as GC

DEF = '''namespace kf
service one (7) {
    func f(string s, string t) : () = 1;
    event e : (string s) = 2;
}
'''
DRIVER = r'''
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <gracht/client.h>
#include <gracht/server.h>
#include "kf_one_service_%(side)s.h"
int gracht_client_get_buffer(gracht_client_t* c, gracht_buffer_t* b) { return -1; }
int gracht_client_get_status_buffer(gracht_client_t* c, struct gracht_message_context* x, gracht_buffer_t* b) { return -1; }
int gracht_client_status_finalize(gracht_client_t* c, struct gracht_buffer* b) { return -1; }
int gracht_client_invoke(gracht_client_t* c, struct gracht_message_context* x, gracht_buffer_t* b) { return -1; }
int gracht_server_get_buffer(gracht_server_t* s, gracht_buffer_t* b) { return -1; }
int gracht_server_respond(struct gracht_message* m, gracht_buffer_t* b) { return -1; }
int gracht_server_send_event(gracht_server_t* s, gracht_conn_t c, gracht_buffer_t* b, unsigned int f) { return -1; }
int gracht_server_broadcast_event(gracht_server_t* s, gracht_buffer_t* b, unsigned int f) { return -1; }
static size_t total;
void kf_one_f_invocation(struct gracht_message* m, const char* s, const char* t) { (void)t; for (size_t i = 0; i < 16; i++) total += (unsigned char)s[i]; }
void kf_one_event_e_invocation(gracht_client_t* c, const char* s) { for (size_t i = 0; i < 16; i++) total += (unsigned char)s[i]; }
extern gracht_protocol_t kf_one_%(side)s_protocol;
int main(void) {
    uint8_t* p = malloc(11 + 5 + 1); memset(p, 1, 17); uint32_t n = 4096; memcpy(p + 11, &n, 4);
    gracht_buffer_t b = { (char*)p, 11 };
    gracht_protocol_t* q = &kf_one_%(side)s_protocol;
    static char msg[256];
    ((void (*)(void*, gracht_buffer_t*))q->functions[0].address)(msg, &b);
    return b.index > 17 ? 98 : 0;
}
'''


def colliding_addresses():
    """two addresses with one CRC-32, both on 127/8"""
    exe, scratch = B.build('asan'), tempfile.mkdtemp(prefix='kf')
    try:
        p = subprocess.run([exe, 'identity', '--pair', '1', '--workers', '0', '--seed', '5'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VT_SCRATCH=scratch, ASAN_OPTIONS='detect_leaks=0'), timeout=120)
        return b'VIOL identity | two datagram clients share one identity' in p.stdout
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def reproduce(kid):
    if kid == 'datagram-address-crc':
        return colliding_addresses()
    side = 'server' if kid.startswith('server') else 'client'
    tmp = tempfile.mkdtemp(prefix='kf')
    try:
        GC.write_files({'kf.gr': DEF}, tmp)
        rc, msg = GC.parser(os.path.join(tmp, 'kf.gr'), os.path.join(tmp, 'out'))
        if rc:
            return False
        with open(os.path.join(tmp, 'd.c'), 'w') as f:
            f.write(DRIVER % {'side': side})
        exe = os.path.join(tmp, 'd')
        p = subprocess.run(['clang', '-fsanitize=address', '-g1', '-w', '-D_GNU_SOURCE', '-I' + os.path.join(tmp, 'out'), '-I' + os.path.join(B.REPO, 'include'), '-I' + B.config_dir(),
                            os.path.join(tmp, 'd.c'), os.path.join(tmp, 'out', 'kf_one_service_%s.c' % side), '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return False
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, ASAN_OPTIONS='exitcode=98:detect_leaks=0'), timeout=60)
        return p.returncode == 98
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
