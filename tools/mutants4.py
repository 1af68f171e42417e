C = 'runtime/client.c'; S = 'runtime/server.c'; LS = 'runtime/link/socket/server.c'; G = 'generator/parser.py'; L = 'generator/languages/langc.py'

m('dgram-bind-ignored', 'C18', LS, '''            (const struct sockaddr*)&link->address, link->address_length);
        if (status) {
            goto error;
        }
        
        status = socket_aio_add''', '''            (const struct sockaddr*)&link->address, link->address_length);
        
        status = socket_aio_add''')
m('invoke-null-unchecked', 'C18', C, '    if (!client || !message) {\n        errno = (EINVAL);\n        return -1;\n    }\n    \n    // fill in', '    // fill in')
m('await-ignores-failure', 'C16 C08 C02', C, '        if (status == -1) {\n            break;\n        }\n        status = 0;', '        status = 0;')
m('client-only-writes-server', 'C15', G, '        if args.server:', '        if args.server or args.client:')
m('include-one', 'C15', G, "args.include.split(',')", "args.include.split(',')[:1]")
m('dgram-respond-fails', 'C14', LS, '''        if (bytesWritten == -1) {
            GRERROR(GRSTR("link_server: errno %i"), errno);
        }
        return -1;
    }
    return 0;
}

static void socket_link_destroy(struct''', '''        if (bytesWritten == -1) {
            GRERROR(GRSTR("link_server: errno %i"), errno);
        }
        return -1;
    }
    return -1;
}

static void socket_link_destroy(struct''')
m('client-event-fails', 'C03 C13', S, '''            server->ops->dispatch(server, message);
        }
    }
    return 0;
}

static int gracht_server_shutdown(''', '''            server->ops->dispatch(server, message);
        }
    }
    return -1;
}

static int gracht_server_shutdown(''')
m('variant-types-repeat', 'C15', 'generator/passes/validate.py', 'if typenames.count(typename) > 1:', 'if typenames.count(typename) > 2:')
m('packet-empty-is-message', 'C14', 'runtime/link/socket/client.c', '        bytes_read = (long)recv(link->base.connection, &message->data[0], message->index, (int)flags);\n        if (bytes_read < 0) {\n            return -1;', '        bytes_read = (long)recv(link->base.connection, &message->data[0], message->index, (int)flags);\n        if (bytes_read < 0) {\n            return 0;')
m('packet-error-disconnects', 'C14', C, '    if (status == -1 && client->link->type == gracht_link_stream_based &&\n', '    if (status == -1 && (client->link->type == gracht_link_stream_based || reason == ECONNREFUSED) &&\n')
