/* Runs the manager of the built tree over UNIX sockets, configured from the command line:
   mgr SOCKET key=value... milter SPEC key=value... milter SPEC ... */
#include <stdio.h>
#include <glib.h>
#include <glib-object.h>
#include <gmodule.h>
#include <stdlib.h>
#include <string.h>
#undef G_BEGIN_DECLS
#define G_BEGIN_DECLS
#undef G_END_DECLS
#define G_END_DECLS
#include <milter/core.h>
#include <milter/client.h>
#include <milter/server.h>
#include <milter/manager.h>
typedef struct { MilterManagerConfiguration p; } SimConf;
typedef struct { MilterManagerConfigurationClass p; } SimConfClass;
static gboolean yes (MilterManagerConfiguration *c, const gchar *f, GError **e) { return TRUE; }
static gboolean maintain (MilterManagerConfiguration *c, GError **e) { printf ("MAINTAIN\n"); fflush (stdout); return TRUE; }
static gboolean loopc (MilterManagerConfiguration *c, MilterEventLoop *l, GError **e) { return TRUE; }
static void conn (MilterManagerConfiguration *c, MilterManagerLeader *l) { }
static gboolean clr (MilterManagerConfiguration *c, GError **e) { return TRUE; }
static gchar *dump (MilterManagerConfiguration *c) { return g_strdup ("demo"); }
static void cinit (gpointer k, gpointer d) { MilterManagerConfigurationClass *c = k; c->load = yes; c->load_custom = yes; c->maintain = maintain; c->event_loop_created = loopc; c->connected = conn; c->clear = clr; c->dump = dump; }
static MilterStatus st (const char *s) { switch (*s) { case 'a': return MILTER_STATUS_ACCEPT; case 'r': return MILTER_STATUS_REJECT; case 't': return MILTER_STATUS_TEMPORARY_FAILURE; case 'd': return MILTER_STATUS_DISCARD; } return MILTER_STATUS_CONTINUE; }
static MilterClient *client;
static guint total;
static void fin (gpointer c, guint n, gpointer d) { total += n; printf ("FIN %u\n", n); fflush (stdout); }
static gboolean on_in (GIOChannel *ch, GIOCondition c, gpointer d)
{
    gchar b[64]; gsize n = 0; GIOStatus s = g_io_channel_read_chars (ch, b, 1, &n, NULL);
    if (s == G_IO_STATUS_EOF) exit (0);
    if (n && *b == 's') milter_client_shutdown (client);
    if (n && *b == 'n') { printf ("N %u\n", milter_client_get_n_processing_sessions (client)); fflush (stdout); }
    if (n && *b == 'c') { printf ("C %u\n", total); fflush (stdout); }
    return TRUE;
}
static gboolean s_conn (gpointer c, const gchar *a, gpointer b, guint l, gpointer d) { return !strcmp (d, "connect"); }
static gboolean s_helo (gpointer c, const gchar *a, gpointer d) { return !strcmp (d, "helo"); }
static gboolean s_from (gpointer c, const gchar *a, gpointer d) { return !strcmp (d, "from"); }
static gboolean s_rcpt (gpointer c, const gchar *a, gpointer d) { return !strcmp (d, "rcpt"); }
static gboolean s_data (gpointer c, gpointer d) { return !strcmp (d, "data"); }
static gboolean s_head (gpointer c, const gchar *a, const gchar *b, gpointer d) { return !strcmp (d, "header"); }
static gboolean s_eoh (gpointer c, gpointer d) { return !strcmp (d, "eoh"); }
static gboolean s_body (gpointer c, const gchar *a, gsize n, gpointer d) { return !strcmp (d, "body"); }
static void hatched (MilterManagerEgg *e, MilterManagerChild *c, gpointer d)
{
    g_signal_connect (c, "stop-on-connect", G_CALLBACK (s_conn), d); g_signal_connect (c, "stop-on-helo", G_CALLBACK (s_helo), d);
    g_signal_connect (c, "stop-on-envelope-from", G_CALLBACK (s_from), d); g_signal_connect (c, "stop-on-envelope-recipient", G_CALLBACK (s_rcpt), d);
    g_signal_connect (c, "stop-on-data", G_CALLBACK (s_data), d); g_signal_connect (c, "stop-on-header", G_CALLBACK (s_head), d);
    g_signal_connect (c, "stop-on-end-of-header", G_CALLBACK (s_eoh), d); g_signal_connect (c, "stop-on-body", G_CALLBACK (s_body), d);
}
int main (int argc, char **argv)
{
    GTypeInfo ti; GType t; MilterManagerConfiguration *conf; GError *e = NULL; MilterEventLoop *loop; int i; MilterManagerEgg *egg = NULL; GIOChannel *in;
    milter_init (); milter_client_init (); milter_server_init ();
    memset (&ti, 0, sizeof ti); ti.class_size = sizeof (SimConfClass); ti.class_init = cinit; ti.instance_size = sizeof (SimConf);
    t = g_type_register_static (MILTER_TYPE_MANAGER_CONFIGURATION, "DemoConf", &ti, 0);
    conf = g_object_new (t, NULL); milter_manager_configuration_clear (conf, NULL);
    milter_manager_configuration_set_privilege_mode (conf, FALSE); milter_manager_configuration_set_use_syslog (conf, FALSE);
    milter_manager_configuration_set_daemon (conf, FALSE); milter_manager_configuration_set_n_workers (conf, 0);
    milter_manager_configuration_set_manager_connection_spec (conf, argv[1]);
    for (i = 2; i < argc; i++) {
        char *v;
        if (!strcmp (argv[i], "milter")) {
            gchar *n = g_strdup_printf ("m%d", i); egg = milter_manager_egg_new (n); g_free (n);
            milter_manager_egg_set_connection_spec (egg, argv[++i], &e); if (e) { fprintf (stderr, "%s\n", e->message); return 3; }
            milter_manager_configuration_add_egg (conf, egg); continue;
        }
        v = strchr (argv[i], '='); if (!v) continue; *v++ = 0;
        if (egg) {
            if (!strcmp (argv[i], "eval")) milter_manager_egg_set_evaluation_mode (egg, *v == '1');
            else if (!strcmp (argv[i], "enabled")) milter_manager_egg_set_enabled (egg, *v == '1');
            else if (!strcmp (argv[i], "fallback")) milter_manager_egg_set_fallback_status (egg, st (v));
            else if (!strcmp (argv[i], "tconn")) milter_manager_egg_set_connection_timeout (egg, atof (v));
            else if (!strcmp (argv[i], "tread")) milter_manager_egg_set_reading_timeout (egg, atof (v));
            else if (!strcmp (argv[i], "twrite")) milter_manager_egg_set_writing_timeout (egg, atof (v));
            else if (!strcmp (argv[i], "teom")) milter_manager_egg_set_end_of_message_timeout (egg, atof (v));
            else if (!strcmp (argv[i], "stop")) g_signal_connect (egg, "hatched", G_CALLBACK (hatched), v);
        } else {
            if (!strcmp (argv[i], "fallback")) milter_manager_configuration_set_fallback_status (conf, st (v));
            else if (!strcmp (argv[i], "chunk")) milter_manager_configuration_set_chunk_size (conf, atoi (v));
            else if (!strcmp (argv[i], "pbuf")) milter_manager_configuration_set_default_packet_buffer_size (conf, atoi (v));
            else if (!strcmp (argv[i], "maint")) milter_manager_configuration_set_maintenance_interval (conf, atoi (v));
            else if (!strcmp (argv[i], "maxconn")) milter_manager_configuration_set_max_connections (conf, atoi (v));
            else if (!strcmp (argv[i], "pending")) milter_manager_configuration_set_max_pending_finished_sessions (conf, atoi (v));
            else if (!strcmp (argv[i], "check")) milter_manager_configuration_set_connection_check_interval (conf, atoi (v));
            else if (!strcmp (argv[i], "libev")) milter_manager_configuration_set_event_loop_backend (conf, *v == '1' ? MILTER_CLIENT_EVENT_LOOP_BACKEND_LIBEV : MILTER_CLIENT_EVENT_LOOP_BACKEND_GLIB);
        }
    }
    client = MILTER_CLIENT (milter_manager_new (conf));
    if (!milter_client_set_connection_spec (client, argv[1], &e) || !milter_client_listen (client, &e)) { fprintf (stderr, "%s\n", e->message); return 3; }
    g_signal_connect (client, "sessions-finished", G_CALLBACK (fin), NULL);
    loop = milter_client_create_event_loop (client, TRUE); milter_client_set_event_loop (client, loop);
    in = g_io_channel_unix_new (0); g_io_channel_set_encoding (in, NULL, NULL); g_io_channel_set_buffered (in, FALSE);
    milter_event_loop_watch_io (loop, in, G_IO_IN | G_IO_HUP, on_in, NULL);
    printf ("READY\n"); fflush (stdout);
    milter_client_run (client, &e);
    printf ("STOPPED\n"); fflush (stdout);
    return 0;
}
