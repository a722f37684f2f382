package main

import (
	"context"

	"github.com/pojntfx/stfs/pkg/config"
)

type yieldMeta struct {
	m config.MetadataPersister
	y func(kind string)
}

func (m *yieldMeta) UpsertHeader(ctx context.Context, h *config.Header, i bool) error {
	m.y("UpsertHeader")
	defer m.y("UpsertHeader")
	return m.m.UpsertHeader(ctx, h, i)
}
func (m *yieldMeta) UpdateHeaderMetadata(ctx context.Context, h *config.Header) error {
	m.y("UpdateHeaderMetadata")
	defer m.y("UpdateHeaderMetadata")
	return m.m.UpdateHeaderMetadata(ctx, h)
}
func (m *yieldMeta) MoveHeader(ctx context.Context, o, n string, r, b int64) error {
	m.y("MoveHeader")
	defer m.y("MoveHeader")
	return m.m.MoveHeader(ctx, o, n, r, b)
}
func (m *yieldMeta) GetHeaders(ctx context.Context) ([]*config.Header, error) {
	m.y("GetHeaders")
	defer m.y("GetHeaders")
	return m.m.GetHeaders(ctx)
}
func (m *yieldMeta) GetHeader(ctx context.Context, n string) (*config.Header, error) {
	m.y("GetHeader")
	defer m.y("GetHeader")
	return m.m.GetHeader(ctx, n)
}
func (m *yieldMeta) GetHeaderByLinkname(ctx context.Context, n string) (*config.Header, error) {
	m.y("GetHeaderByLinkname")
	defer m.y("GetHeaderByLinkname")
	return m.m.GetHeaderByLinkname(ctx, n)
}
func (m *yieldMeta) GetHeaderChildren(ctx context.Context, n string) ([]*config.Header, error) {
	m.y("GetHeaderChildren")
	defer m.y("GetHeaderChildren")
	return m.m.GetHeaderChildren(ctx, n)
}
func (m *yieldMeta) GetRootPath(ctx context.Context) (string, error) {
	m.y("GetRootPath")
	defer m.y("GetRootPath")
	return m.m.GetRootPath(ctx)
}
func (m *yieldMeta) GetHeaderDirectChildren(ctx context.Context, n string, l int) ([]*config.Header, error) {
	m.y("GetHeaderDirectChildren")
	defer m.y("GetHeaderDirectChildren")
	return m.m.GetHeaderDirectChildren(ctx, n, l)
}
func (m *yieldMeta) DeleteHeader(ctx context.Context, n string, r, b int64) (*config.Header, error) {
	m.y("DeleteHeader")
	defer m.y("DeleteHeader")
	return m.m.DeleteHeader(ctx, n, r, b)
}
func (m *yieldMeta) GetLastIndexedRecordAndBlock(ctx context.Context, rs int) (int64, int64, error) {
	m.y("GetLastIndexedRecordAndBlock")
	defer m.y("GetLastIndexedRecordAndBlock")
	return m.m.GetLastIndexedRecordAndBlock(ctx, rs)
}
func (m *yieldMeta) PurgeAllHeaders(ctx context.Context) error {
	m.y("PurgeAllHeaders")
	defer m.y("PurgeAllHeaders")
	return m.m.PurgeAllHeaders(ctx)
}
